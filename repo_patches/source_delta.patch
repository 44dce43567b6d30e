From f15d6f2227d8bed20651e50ac06c9e1f2a243897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:20 +0000
Subject: [PATCH 01/48] fix: translate: keys derived from the prefix must not
 share memory

translate.New appended to the caller's prefix three times. When the prefix
has spare capacity all three keys share one backing array, so the key held by
the sequence was overwritten: after the first lease ids restarted from zero
(two labels get the same id) and releasing the sequence failed. Find appended
to the shared keys prefix too, which is a race between concurrent readers.
---
 internal/translate/translate.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/translate/translate.go b/internal/translate/translate.go
index ff9da7b..d857d22 100644
--- a/internal/translate/translate.go
+++ b/internal/translate/translate.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"errors"
+	"slices"
 	"sync"
 
 	"github.com/dgraph-io/badger/v4"
@@ -17,12 +18,15 @@ type Translate struct {
 }
 
 func New(db *badger.DB, prefix []byte) (*Translate, error) {
+	// prefix may have spare capacity. Make sure the keys derived from it never
+	// share the same backing array.
+	prefix = slices.Clip(prefix)
 	seq, err := db.GetSequence(append(prefix, []byte("seq")...), 4<<10)
 	if err != nil {
 		return nil, err
 	}
 	return &Translate{db: db, seq: seq,
-		keys: append(prefix, []byte("keys")...),
+		keys: slices.Clip(append(prefix, []byte("keys")...)),
 		ids:  append(prefix, []byte("ids")...),
 	}, nil
 }
-- 
2.43.0


From 6f4f60383af080d76cad4b5ddd8324877407db1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:02 +0000
Subject: [PATCH 02/48] fix: dataframe: first sample of a view is stored at its
 own row

A view without any record yet started filling blanks from row 1 instead of
row 0. The first sample of every view that does not hold sample 0 landed one
row early, so readers got the wrong sample or went past the last row.
---
 internal/dataframe/dataframe.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/dataframe/dataframe.go b/internal/dataframe/dataframe.go
index e88c989..f0b49f0 100644
--- a/internal/dataframe/dataframe.go
+++ b/internal/dataframe/dataframe.go
@@ -222,21 +222,21 @@ func (df *DataFrame) appendView(ctx context.Context, view string, samples []*v1.
 		}
 		// Sample ID == Row ID, for each view we need to store a contiguous rows
 		// starting from 0
-		var lastId uint64
+		var nextRow uint64
 		if r != nil {
-			lastId = uint64(r.NumRows()) - 1
+			nextRow = uint64(r.NumRows())
 			defer r.Release()
 		}
 		empty := &v1.Data{}
 		for _, s := range samples {
 			setSample(s)
-			for i := lastId + 1; i < s.Id; i++ {
+			for i := nextRow; i < s.Id; i++ {
 				// we fill the blanks with empty data. All records in all views have the
 				// same number of columns
 				schema.Append(empty)
 			}
 			schema.Append(s.Data)
-			lastId = s.Id
+			nextRow = s.Id + 1
 		}
 		if r != nil {
 			b := schema.NewRecord()
-- 
2.43.0


From b1955a147f96e56c5e55f345f07f6bc5a47d3325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:48 +0000
Subject: [PATCH 03/48] fix: transform: index a sample under its own signal

The label used by scans without filters was computed before the signal of the
sample was known, so each sample was indexed under the signal of the sample
processed before it (the first one under no signal at all).
---
 internal/transform/transform.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/transform/transform.go b/internal/transform/transform.go
index f84019f..5084ff3 100644
--- a/internal/transform/transform.go
+++ b/internal/transform/transform.go
@@ -46,9 +46,10 @@ func (c *Context) processSample(sample *v1.Sample) {
 	c.minTs = 0
 	c.maxTs = 0
 	c.positions = bitmaps.New()
-	c.init()
 	c.WithSample(sample.Id).
 		data(sample.Data)
+	// The resource is only known after looking at the data.
+	c.init()
 	sample.MinTs = c.minTs
 	sample.MaxTs = c.maxTs
 	c.batch.Add(
-- 
2.43.0


From eaeef83dc11f9ce00d8103f58c4b49a511e9c671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:37 +0000
Subject: [PATCH 04/48] fix: dataframe: keep absent and empty messages apart
 when storing samples

The storage path used the released arrow3 module, which stores an unset
message (no scope, no status, no resource, an attribute without value) as an
empty one, so such samples came back changed. internal/arrow3 already has the
correction; use it.
---
 internal/dataframe/columns.go   | 2 +-
 internal/dataframe/dataframe.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/dataframe/columns.go b/internal/dataframe/columns.go
index 1cb4adc..6a12ac5 100644
--- a/internal/dataframe/columns.go
+++ b/internal/dataframe/columns.go
@@ -4,8 +4,8 @@ import (
 	"strings"
 
 	"github.com/apache/arrow/go/v17/parquet/schema"
-	"github.com/gernest/arrow3"
 	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
+	"github.com/gernest/requiemdb/internal/arrow3"
 )
 
 type Column struct {
diff --git a/internal/dataframe/dataframe.go b/internal/dataframe/dataframe.go
index f0b49f0..efa919d 100644
--- a/internal/dataframe/dataframe.go
+++ b/internal/dataframe/dataframe.go
@@ -11,10 +11,10 @@ import (
 	"github.com/apache/arrow/go/v17/arrow"
 	"github.com/apache/arrow/go/v17/arrow/memory"
 	"github.com/dgraph-io/badger/v4"
-	"github.com/gernest/arrow3"
 	"github.com/gernest/rbf/quantum"
 	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
 	"github.com/gernest/requiemdb/internal/arena"
+	"github.com/gernest/requiemdb/internal/arrow3"
 	"github.com/gernest/requiemdb/internal/batch"
 	"github.com/gernest/requiemdb/internal/bitmaps"
 	"github.com/gernest/requiemdb/internal/logger"
-- 
2.43.0


From a4b71e399c2921ceb29920a48bd625a75632d15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:41 +0000
Subject: [PATCH 05/48] fix: data: only collapse metrics, scopes and resources
 that are the same

Metrics were matched by name alone: two samples holding a metric of the same
name and a different type crashed the scan, and points of different unit,
temporality or monotonicity were put under the first metric. Names, versions
and schemas were hashed without delimiters, so different scopes ("ab"+"c" and
"a"+"bc") were merged.
---
 internal/data/metrics.go |  6 +++---
 internal/data/sort.go    | 43 +++++++++++++++++++++++++++++++++-------
 2 files changed, 39 insertions(+), 10 deletions(-)

diff --git a/internal/data/metrics.go b/internal/data/metrics.go
index 7ab6622..c3986bf 100644
--- a/internal/data/metrics.go
+++ b/internal/data/metrics.go
@@ -25,7 +25,7 @@ func CollapseMetrics(ds []*metricsV1.MetricsData) *metricsV1.MetricsData {
 					sh := xm.hashScope(rh, sm.SchemaUrl, sm.Scope)
 					xm.scope[sh] = sm
 					for _, m := range sm.Metrics {
-						mh := xm.hashMetrics(sh, m.Name)
+						mh := xm.hashMetrics(sh, m)
 						xm.metrics[mh] = m
 					}
 				}
@@ -38,13 +38,13 @@ func CollapseMetrics(ds []*metricsV1.MetricsData) *metricsV1.MetricsData {
 					xm.scope[sh] = sm
 					resource.ScopeMetrics = append(resource.ScopeMetrics, sm)
 					for _, m := range sm.Metrics {
-						mh := xm.hashMetrics(sh, m.Name)
+						mh := xm.hashMetrics(sh, m)
 						xm.metrics[mh] = m
 					}
 					continue
 				}
 				for _, m := range sm.Metrics {
-					mh := xm.hashMetrics(sh, m.Name)
+					mh := xm.hashMetrics(sh, m)
 					om, ok := xm.metrics[mh]
 					if !ok {
 						scope.Metrics = append(scope.Metrics, m)
diff --git a/internal/data/sort.go b/internal/data/sort.go
index c2f3401..3bea955 100644
--- a/internal/data/sort.go
+++ b/internal/data/sort.go
@@ -7,6 +7,7 @@ import (
 
 	"github.com/cespare/xxhash/v2"
 	commonv1 "go.opentelemetry.io/proto/otlp/common/v1"
+	metricsV1 "go.opentelemetry.io/proto/otlp/metrics/v1"
 	resourcev1 "go.opentelemetry.io/proto/otlp/resource/v1"
 	"google.golang.org/protobuf/proto"
 )
@@ -42,13 +43,39 @@ func newSorter[T any, R any, S any]() *Sorter[T, R, S] {
 	}
 }
 
-func (r *Sorter[T, R, S]) hashMetrics(scope uint64, name string) uint64 {
+func (r *Sorter[T, R, S]) hashMetrics(scope uint64, m *metricsV1.Metric) uint64 {
 	r.h.Reset()
 	r.hashNum(scope)
-	r.h.WriteString(name)
+	r.hashString(m.Name)
+	r.hashString(m.Unit)
+	// Only data points of the same kind belong together.
+	switch e := m.Data.(type) {
+	case *metricsV1.Metric_Gauge:
+		r.hashNum(1)
+	case *metricsV1.Metric_Sum:
+		r.hashNum(2)
+		r.hashNum(uint64(e.Sum.GetAggregationTemporality()))
+		if e.Sum.GetIsMonotonic() {
+			r.hashNum(1)
+		}
+	case *metricsV1.Metric_Histogram:
+		r.hashNum(3)
+		r.hashNum(uint64(e.Histogram.GetAggregationTemporality()))
+	case *metricsV1.Metric_ExponentialHistogram:
+		r.hashNum(4)
+		r.hashNum(uint64(e.ExponentialHistogram.GetAggregationTemporality()))
+	case *metricsV1.Metric_Summary:
+		r.hashNum(5)
+	}
 	return r.h.Sum64()
 }
 
+// hashString adds v to the hash with its length, to know where it ends.
+func (r *Sorter[T, R, S]) hashString(v string) {
+	r.hashNum(uint64(len(v)))
+	r.h.WriteString(v)
+}
+
 func (r *Sorter[T, R, S]) hashNum(v uint64) {
 	binary.BigEndian.PutUint64(r.buf[:8], v)
 	r.h.Write(r.buf[:8])
@@ -57,7 +84,7 @@ func (r *Sorter[T, R, S]) hashNum(v uint64) {
 
 func (r *Sorter[T, R, S]) hashResource(schema string, resource *resourcev1.Resource) uint64 {
 	r.h.Reset()
-	r.h.WriteString(schema)
+	r.hashString(schema)
 	if resource != nil {
 		r.attr(resource.Attributes)
 	}
@@ -67,10 +94,10 @@ func (r *Sorter[T, R, S]) hashResource(schema string, resource *resourcev1.Resou
 func (r *Sorter[T, R, S]) hashScope(resource uint64, schema string, scope *commonv1.InstrumentationScope) uint64 {
 	r.h.Reset()
 	r.hashNum(resource)
-	r.h.WriteString(schema)
+	r.hashString(schema)
 	if scope != nil {
-		r.h.WriteString(scope.Name)
-		r.h.WriteString(scope.Version)
+		r.hashString(scope.Name)
+		r.hashString(scope.Version)
 		if scope.Attributes != nil {
 			r.attr(scope.Attributes)
 		}
@@ -113,7 +140,9 @@ func (r *Sorter[T, R, S]) Swap(i, j int) {
 
 func (r *Sorter[T, R, S]) attr(kv []*commonv1.KeyValue) {
 	for _, v := range kv {
-		r.buf, _ = proto.MarshalOptions{}.MarshalAppend(r.buf[:0], v)
+		r.buf, _ = proto.MarshalOptions{}.MarshalAppend(r.buf[:8], v)
+		binary.BigEndian.PutUint64(r.buf[:8], uint64(len(r.buf)-8))
 		r.h.Write(r.buf)
+		r.buf = r.buf[:0]
 	}
 }
-- 
2.43.0


From 424c83196dac783b3e2cd8a2085a534c57a053bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:27 +0000
Subject: [PATCH 06/48] fix: store: report errors reading samples, and answer
 with an empty document

Scan dropped the error of reading the selected samples and answered with a nil
document, which gRPC cannot even encode.
---
 internal/store/scan.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/store/scan.go b/internal/store/scan.go
index c13c14c..52ffd98 100644
--- a/internal/store/scan.go
+++ b/internal/store/scan.go
@@ -66,6 +66,12 @@ func (s *Storage) Scan(ctx context.Context, scan *v1.Scan) (result *v1.Data, err
 	default:
 		return nil, fmt.Errorf("%d is not a supported resource", resource)
 	}
+	if err != nil {
+		return nil, err
+	}
+	if len(rs) == 0 {
+		return data.Zero(resource), nil
+	}
 	return data.Collapse(rs), nil
 }
 
-- 
2.43.0


From f0dea53bc7deb8a7a999fff8b41f5c4ec72224e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:27 +0000
Subject: [PATCH 07/48] fix: transform: index attributes of spans

Attributes of data points and log records are indexed but those of spans were
not, so a scan for traces by attribute never matched anything.
---
 internal/transform/trace.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/transform/trace.go b/internal/transform/trace.go
index 5805585..ec6c369 100644
--- a/internal/transform/trace.go
+++ b/internal/transform/trace.go
@@ -41,6 +41,7 @@ func (c *Context) transformTrace(rm *tracev1.ResourceSpans) {
 						WithKey(hex.EncodeToString(span.ParentSpanId))
 				})
 			}
+			c.attributes(v1.PREFIX_ATTRIBUTES, span.Attributes)
 			c.Range(span.StartTimeUnixNano, span.EndTimeUnixNano)
 		}
 	}
-- 
2.43.0


From 7a448ee1b2ee50248f8b803d35391df1207df410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:45 +0000
Subject: [PATCH 08/48] fix: labels: different labels never share an encoding

Key and value are joined with =, and a key may contain = itself, so scans for
one attribute also selected samples that only carry another one.
---
 internal/labels/labels.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/labels/labels.go b/internal/labels/labels.go
index 70efebf..bb02197 100644
--- a/internal/labels/labels.go
+++ b/internal/labels/labels.go
@@ -2,6 +2,7 @@ package labels
 
 import (
 	"fmt"
+	"strings"
 	"sync"
 
 	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
@@ -39,8 +40,12 @@ func (l *Label) WithValue(v string) *Label {
 	return l
 }
 
+// The first = that is not escaped ends the key. Without this a key "a=b" with
+// value "c" would be the same label as key "a" with value "b=c".
+var keyEscape = strings.NewReplacer(`\`, `\\`, `=`, `\=`)
+
 func (l *Label) Encode() []byte {
-	l.buf = fmt.Appendf(l.buf[:0], "%d:%d:%s", l.Resource, l.Prefix, l.Key)
+	l.buf = fmt.Appendf(l.buf[:0], "%d:%d:%s", l.Resource, l.Prefix, keyEscape.Replace(l.Key))
 	if l.Value != "" {
 		l.buf = fmt.Appendf(l.buf, "=%s", l.Value)
 	}
-- 
2.43.0


From 3abcd0c0ba5115179f38e8b75900bff1ba422d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:19 +0000
Subject: [PATCH 09/48] fix: view: search every hour a time range touches

---
 internal/dataframe/dataframe.go |  3 +--
 internal/shards/shards.go       |  8 +-------
 internal/view/view.go           | 23 +++++++++++++++++++++--
 3 files changed, 23 insertions(+), 11 deletions(-)

diff --git a/internal/dataframe/dataframe.go b/internal/dataframe/dataframe.go
index efa919d..384843f 100644
--- a/internal/dataframe/dataframe.go
+++ b/internal/dataframe/dataframe.go
@@ -11,7 +11,6 @@ import (
 	"github.com/apache/arrow/go/v17/arrow"
 	"github.com/apache/arrow/go/v17/arrow/memory"
 	"github.com/dgraph-io/badger/v4"
-	"github.com/gernest/rbf/quantum"
 	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
 	"github.com/gernest/requiemdb/internal/arena"
 	"github.com/gernest/requiemdb/internal/arrow3"
@@ -79,7 +78,7 @@ func readRows(r arrow.Record, rows []int) []*v1.Data {
 }
 
 func (df *DataFrame) View(ctx context.Context, resource v1.Scan_SCOPE, start, end time.Time, columns []int, rows *bitmaps.Bitmap, f ViewFn) error {
-	all := quantum.ViewsByTimeRange(view.StdView, start, end, view.ChooseQuantum(end.Sub(start)))
+	all := view.Search(start, end)
 	var set string
 	switch resource {
 	case v1.Scan_METRICS:
diff --git a/internal/shards/shards.go b/internal/shards/shards.go
index 9faac59..1fa00f3 100644
--- a/internal/shards/shards.go
+++ b/internal/shards/shards.go
@@ -12,7 +12,6 @@ import (
 
 	"github.com/gernest/rbf"
 	"github.com/gernest/rbf/cfg"
-	"github.com/gernest/rbf/quantum"
 	"github.com/gernest/requiemdb/internal/bitmaps"
 	"github.com/gernest/requiemdb/internal/rows"
 	"github.com/gernest/requiemdb/internal/view"
@@ -20,8 +19,6 @@ import (
 	"github.com/gernest/roaring/shardwidth"
 )
 
-const stdView = view.StdView
-
 type Shards struct {
 	config cfg.Config
 	mu     sync.RWMutex
@@ -104,10 +101,7 @@ func (s *Shards) Rows(start, end time.Time, columns *bitmaps.Bitmap) (*bitmaps.B
 		shard := col / shardwidth.ShardWidth
 		m[shard] = append(m[shard], col)
 	}
-	views := quantum.ViewsByTimeRange(stdView, start, end, view.ChooseQuantum(
-		end.Sub(start),
-	))
-	return s.rows(views, m)
+	return s.rows(view.Search(start, end), m)
 }
 
 func (s *Shards) rows(views []string, columns map[uint64][]uint64) (r *bitmaps.Bitmap, err error) {
diff --git a/internal/view/view.go b/internal/view/view.go
index 8deb4ab..e20b507 100644
--- a/internal/view/view.go
+++ b/internal/view/view.go
@@ -1,6 +1,7 @@
 package view
 
 import (
+	"math"
 	"time"
 
 	"github.com/gernest/rbf/quantum"
@@ -47,9 +48,27 @@ func ChooseQuantum(duration time.Duration) quantum.TimeQuantum {
 	return QH
 }
 
+// Sample timestamps are nanoseconds since epoch, nothing is stored outside of
+// this range.
+var (
+	minTime = time.Unix(0, math.MinInt64).UTC()
+	maxTime = time.Unix(0, math.MaxInt64).UTC()
+)
+
+// Search returns views covering every hour touched by [start, end), each hour
+// is covered exactly once.
 func Search(start, end time.Time) []string {
-	return quantum.ViewsByTimeRange(StdView, start, end,
-		ChooseQuantum(end.Sub(start)))
+	if start.Before(minTime) {
+		start = minTime
+	}
+	if end.After(maxTime) {
+		end = maxTime
+	}
+	if !start.Before(end) {
+		return nil
+	}
+	return quantum.ViewsByTimeRange(StdView,
+		start.UTC().Truncate(hour), end.UTC(), stdQuantum)
 }
 
 // Pos generates position in a bitmap
-- 
2.43.0


From 01ac6d5cb1b417c62a62ad7f355d90340d94264b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:22 +0000
Subject: [PATCH 10/48] fix: shards: rows must have every column, in any
 container and shard

---
 internal/shards/shards.go | 52 +++++++++++++++++++--------------------
 1 file changed, 26 insertions(+), 26 deletions(-)

diff --git a/internal/shards/shards.go b/internal/shards/shards.go
index 1fa00f3..fd07ad9 100644
--- a/internal/shards/shards.go
+++ b/internal/shards/shards.go
@@ -5,7 +5,6 @@ import (
 	"io"
 	"log/slog"
 	"path/filepath"
-	"slices"
 	"strconv"
 	"sync"
 	"time"
@@ -108,8 +107,6 @@ func (s *Shards) rows(views []string, columns map[uint64][]uint64) (r *bitmaps.B
 	s.mu.RLock()
 	defer s.mu.RUnlock()
 
-	var tx *rbf.Tx
-	var fs []roaring.BitmapFilter
 	for k, f := range columns {
 		db, ok := s.db[k]
 		if !ok {
@@ -119,44 +116,47 @@ func (s *Shards) rows(views []string, columns map[uint64][]uint64) (r *bitmaps.B
 			}
 			return
 		}
-		tx, err = db.Begin(false)
+		r, err = match(db, views, f, r)
 		if err != nil {
 			return
 		}
-		fs = slices.Grow(fs, len(f))[:0]
-		for i := range f {
-			fs = append(fs, roaring.NewBitmapColumnFilter(f[i]))
+		if r.IsEmpty() {
+			// this shard resulted in no match. No need to keep searching
+			return
 		}
+	}
+	return
+}
+
+// match returns rows that have all columns set in any of the views. If r is not
+// nil only rows in r are considered.
+func match(db *rbf.DB, views []string, columns []uint64, r *bitmaps.Bitmap) (*bitmaps.Bitmap, error) {
+	tx, err := db.Begin(false)
+	if err != nil {
+		return r, err
+	}
+	defer tx.Rollback()
+	for _, col := range columns {
 		b := bitmaps.New()
 		for _, view := range views {
 			err = tx.ApplyFilter(view, 0, roaring.NewBitmapRowFilter(func(u uint64) error {
 				b.Add(u)
 				return nil
-			}, fs...))
+			}, roaring.NewBitmapColumnFilter(col)))
 			if err != nil {
-				tx.Rollback()
-				return
+				b.Release()
+				return r, err
 			}
 		}
-		tx.Rollback()
-		if !b.IsEmpty() {
-			if r == nil {
-				// first column set
-				r = bitmaps.New()
-				r.Or(&b.Bitmap)
-			} else {
-				some := !r.IsEmpty()
-				r.And(&b.Bitmap)
-				if r.IsEmpty() && some {
-					// this shard resulted in no match. No need to keep searching
-					b.Release()
-					return
-				}
-			}
+		if r == nil {
+			// first column set
+			r = b
+			continue
 		}
+		r.And(&b.Bitmap)
 		b.Release()
 	}
-	return
+	return r, nil
 }
 
 func (s *Shards) Row(view string, rowID uint64) (*rows.Row, error) {
-- 
2.43.0


From 0c3dc09ce1b8b675ac6f3be9c770d4617025ceaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:25 +0000
Subject: [PATCH 11/48] fix: shards: a row outlives the transaction that read
 it

---
 internal/shards/shards.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/shards/shards.go b/internal/shards/shards.go
index fd07ad9..ef48524 100644
--- a/internal/shards/shards.go
+++ b/internal/shards/shards.go
@@ -185,8 +185,9 @@ func row(tx *rbf.Tx, view string, shard, rowID uint64) (*rows.Row, error) {
 		return nil, err
 	}
 	r := rows.NewRow()
+	// containers are only valid until the end of the transaction
 	r.Segments = append(r.Segments, *rows.NewSegment(
-		data, shard, true,
+		data.Clone(), shard, true,
 	))
 	r.InvalidateCount()
 	return r, nil
-- 
2.43.0


From 1479f89bad2bdf12a75fdb05fa4c5069e8d5845f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:38 +0000
Subject: [PATCH 12/48] fix: shards: serve existing shards after a restart,
 open each one once

---
 internal/shards/shards.go | 57 ++++++++++++++++++++++++++++++++++++---
 1 file changed, 54 insertions(+), 3 deletions(-)

diff --git a/internal/shards/shards.go b/internal/shards/shards.go
index ef48524..ced95fb 100644
--- a/internal/shards/shards.go
+++ b/internal/shards/shards.go
@@ -3,7 +3,9 @@ package shards
 import (
 	"errors"
 	"io"
+	"io/fs"
 	"log/slog"
+	"os"
 	"path/filepath"
 	"strconv"
 	"sync"
@@ -23,6 +25,7 @@ type Shards struct {
 	mu     sync.RWMutex
 	db     map[uint64]*rbf.DB
 	dir    string
+	loaded bool
 }
 
 func New(path string, config *cfg.Config) *Shards {
@@ -71,6 +74,10 @@ func (s *Shards) Update(shard uint64, f func(tx *rbf.Tx) error) error {
 // transaction. If f returns io.EOF it signals end of iterations which will
 // return a nil error.
 func (s *Shards) AllShards(f func(tx *rbf.Tx, shard uint64) error) error {
+	err := s.load()
+	if err != nil {
+		return err
+	}
 	s.mu.RLock()
 	defer s.mu.RUnlock()
 	for shard, db := range s.db {
@@ -100,6 +107,10 @@ func (s *Shards) Rows(start, end time.Time, columns *bitmaps.Bitmap) (*bitmaps.B
 		shard := col / shardwidth.ShardWidth
 		m[shard] = append(m[shard], col)
 	}
+	err := s.load()
+	if err != nil {
+		return nil, err
+	}
 	return s.rows(view.Search(start, end), m)
 }
 
@@ -201,22 +212,62 @@ func (s *Shards) get(shard uint64) (*rbf.DB, error) {
 		return r, nil
 	}
 	s.mu.RUnlock()
+	s.mu.Lock()
+	defer s.mu.Unlock()
+	return s.open(shard)
+}
+
+// open returns the database of the shard, s.mu must be held for writing.
+func (s *Shards) open(shard uint64) (*rbf.DB, error) {
+	if r, ok := s.db[shard]; ok {
+		return r, nil
+	}
 	path := filepath.Join(s.dir, strconv.FormatUint(shard, 10))
 	config := s.config
 	config.Logger = slog.Default().With(
 		slog.Uint64("shard", shard),
 	)
-	r = rbf.NewDB(path, &config)
+	r := rbf.NewDB(path, &config)
 	err := r.Open()
 	if err != nil {
 		return nil, err
 	}
-	s.mu.Lock()
 	s.db[shard] = r
-	s.mu.Unlock()
 	return r, nil
 }
 
+// load opens all shards already present in the index directory. It only does
+// work once.
+func (s *Shards) load() error {
+	s.mu.RLock()
+	loaded := s.loaded
+	s.mu.RUnlock()
+	if loaded {
+		return nil
+	}
+	s.mu.Lock()
+	defer s.mu.Unlock()
+	if s.loaded {
+		return nil
+	}
+	ls, err := os.ReadDir(s.dir)
+	if err != nil && !errors.Is(err, fs.ErrNotExist) {
+		return err
+	}
+	for _, e := range ls {
+		shard, err := strconv.ParseUint(e.Name(), 10, 64)
+		if err != nil || !e.IsDir() {
+			continue
+		}
+		_, err = s.open(shard)
+		if err != nil {
+			return err
+		}
+	}
+	s.loaded = true
+	return nil
+}
+
 func (s *Shards) Close() error {
 	s.mu.Lock()
 	defer s.mu.Unlock()
-- 
2.43.0


From 5a150728f425040dd9a2dd3b3bbb401d6177ae67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:47 +0000
Subject: [PATCH 13/48] fix: visit: filter data points by their own attributes

---
 internal/visit/visit.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/visit/visit.go b/internal/visit/visit.go
index 6a250ab..3c72391 100644
--- a/internal/visit/visit.go
+++ b/internal/visit/visit.go
@@ -115,7 +115,7 @@ func (o *All) Compile(filters ...*v1.Scan_Filter) {
 			case v1.Scan_SCOPE_ATTRIBUTES:
 				o.SetScopeAttr(e.Attr.Key, e.Attr.Value)
 			case v1.Scan_ATTRIBUTES:
-				o.SetScopeAttr(e.Attr.Key, e.Attr.Value)
+				o.SetAttr(e.Attr.Key, e.Attr.Value)
 			}
 		}
 	}
-- 
2.43.0


From 0a82db7eff0240a33ccc939ca4edc7a42bf70ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:50 +0000
Subject: [PATCH 14/48] fix: visit: attribute filters match keys and values of
 any length or content

---
 internal/visit/visit.go | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/internal/visit/visit.go b/internal/visit/visit.go
index 3c72391..0436c0f 100644
--- a/internal/visit/visit.go
+++ b/internal/visit/visit.go
@@ -1,6 +1,7 @@
 package visit
 
 import (
+	"encoding/binary"
 	"encoding/hex"
 	"sync"
 
@@ -158,12 +159,19 @@ func (a *All) SetResourceAttr(k, v string) {
 	a.resource_attr.Add(attr(k, v))
 }
 
-var sep = []byte("=")
-
 func attr(k, v string) uint64 {
 	var h xxhash.Digest
+	return hashAttr(&h, k, v)
+}
+
+// hashAttr hashes a key value pair. Key length is part of the hash to make sure
+// we never mix up where key ends and value starts.
+func hashAttr(h *xxhash.Digest, k, v string) uint64 {
+	var size [8]byte
+	binary.LittleEndian.PutUint64(size[:], uint64(len(k)))
+	h.Reset()
+	h.Write(size[:])
 	h.WriteString(k)
-	h.Write(sep)
 	h.WriteString(v)
 	return h.Sum64()
 }
@@ -291,13 +299,9 @@ func matchAttr(a *roaring64.Bitmap, ls []*commonV1.KeyValue) bool {
 	defer b.Release()
 	var h xxhash.Digest
 	for _, k := range ls {
-		switch e := k.Value.Value.(type) {
+		switch e := k.GetValue().GetValue().(type) {
 		case *commonV1.AnyValue_StringValue:
-			h.Reset()
-			h.WriteString(k.Key)
-			h.Write(sep)
-			h.WriteString(e.StringValue)
-			b.Add(h.Sum64())
+			b.Add(hashAttr(&h, k.Key, e.StringValue))
 		}
 	}
 	// For labels, we use And to make sure we only take data points that have all
-- 
2.43.0


From fee50d01e40dd5d5c4e59c1ac008994c04ebff4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:52 +0000
Subject: [PATCH 15/48] fix: visit: filter spans and logs by trace, span and
 parent span id

---
 internal/visit/logs.go  | 2 ++
 internal/visit/trace.go | 3 ++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/visit/logs.go b/internal/visit/logs.go
index 861ccbd..e001ed1 100644
--- a/internal/visit/logs.go
+++ b/internal/visit/logs.go
@@ -24,6 +24,8 @@ func (Logs) Visit(data *logsv1.LogsData, visitor *All) *logsv1.LogsData {
 			for _, ms := range sm.LogRecords {
 				if !(visitor.AcceptLogLevel(ms.SeverityText) &&
 					visitor.AcceptTimestamp(ms.TimeUnixNano) &&
+					visitor.AcceptTraceID(ms.TraceId) &&
+					visitor.AcceptSpanID(ms.SpanId) &&
 					visitor.AcceptAttributes(ms.Attributes)) {
 					continue
 				}
diff --git a/internal/visit/trace.go b/internal/visit/trace.go
index a610ad4..3a25c95 100644
--- a/internal/visit/trace.go
+++ b/internal/visit/trace.go
@@ -25,7 +25,8 @@ func (Trace) Visit(data *tracev1.TracesData, visitor *All) *tracev1.TracesData {
 				if !(visitor.AcceptName(ms.Name) &&
 					visitor.AcceptTimestamp(ms.StartTimeUnixNano) &&
 					visitor.AcceptTraceID(ms.TraceId) &&
-					visitor.AcceptParentSpanID(ms.SpanId) &&
+					visitor.AcceptSpanID(ms.SpanId) &&
+					visitor.AcceptParentSpanID(ms.ParentSpanId) &&
 					visitor.AcceptAttributes(ms.Attributes)) {
 					continue
 				}
-- 
2.43.0


From eaacc4f2db8141711956a6bb4f2754dea93ac8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:55 +0000
Subject: [PATCH 16/48] fix: visit: keep scope schema and metric metadata of
 selected data points

---
 internal/visit/logs.go    |  3 ++-
 internal/visit/metrics.go | 40 +++++++++++++++++++++++++++++----------
 internal/visit/trace.go   |  3 ++-
 3 files changed, 34 insertions(+), 12 deletions(-)

diff --git a/internal/visit/logs.go b/internal/visit/logs.go
index e001ed1..71017d4 100644
--- a/internal/visit/logs.go
+++ b/internal/visit/logs.go
@@ -31,7 +31,8 @@ func (Logs) Visit(data *logsv1.LogsData, visitor *All) *logsv1.LogsData {
 				}
 				if scope == nil {
 					scope = &logsv1.ScopeLogs{
-						Scope: sm.Scope,
+						Scope:     sm.Scope,
+						SchemaUrl: sm.SchemaUrl,
 					}
 				}
 				scope.LogRecords = append(scope.LogRecords, ms)
diff --git a/internal/visit/metrics.go b/internal/visit/metrics.go
index 886ebff..780f19d 100644
--- a/internal/visit/metrics.go
+++ b/internal/visit/metrics.go
@@ -38,11 +38,15 @@ func (Metrics) Visit(data *metricsV1.MetricsData, visitor *All) *metricsV1.Metri
 					if len(points) > 0 {
 						if scope == nil {
 							scope = &metricsV1.ScopeMetrics{
-								Scope: sm.Scope,
+								Scope:     sm.Scope,
+								SchemaUrl: sm.SchemaUrl,
 							}
 						}
 						scope.Metrics = append(scope.Metrics, &metricsV1.Metric{
-							Name: ms.Name,
+							Name:        ms.Name,
+							Description: ms.Description,
+							Unit:        ms.Unit,
+							Metadata:    ms.Metadata,
 							Data: &metricsV1.Metric_Gauge{
 								Gauge: &metricsV1.Gauge{
 									DataPoints: points,
@@ -62,11 +66,15 @@ func (Metrics) Visit(data *metricsV1.MetricsData, visitor *All) *metricsV1.Metri
 					if len(points) > 0 {
 						if scope == nil {
 							scope = &metricsV1.ScopeMetrics{
-								Scope: sm.Scope,
+								Scope:     sm.Scope,
+								SchemaUrl: sm.SchemaUrl,
 							}
 						}
 						scope.Metrics = append(scope.Metrics, &metricsV1.Metric{
-							Name: ms.Name,
+							Name:        ms.Name,
+							Description: ms.Description,
+							Unit:        ms.Unit,
+							Metadata:    ms.Metadata,
 							Data: &metricsV1.Metric_Sum{
 								Sum: &metricsV1.Sum{
 									DataPoints:             points,
@@ -89,11 +97,15 @@ func (Metrics) Visit(data *metricsV1.MetricsData, visitor *All) *metricsV1.Metri
 					if len(points) > 0 {
 						if scope == nil {
 							scope = &metricsV1.ScopeMetrics{
-								Scope: sm.Scope,
+								Scope:     sm.Scope,
+								SchemaUrl: sm.SchemaUrl,
 							}
 						}
 						scope.Metrics = append(scope.Metrics, &metricsV1.Metric{
-							Name: ms.Name,
+							Name:        ms.Name,
+							Description: ms.Description,
+							Unit:        ms.Unit,
+							Metadata:    ms.Metadata,
 							Data: &metricsV1.Metric_Histogram{
 								Histogram: &metricsV1.Histogram{
 									DataPoints:             points,
@@ -115,11 +127,15 @@ func (Metrics) Visit(data *metricsV1.MetricsData, visitor *All) *metricsV1.Metri
 					if len(points) > 0 {
 						if scope == nil {
 							scope = &metricsV1.ScopeMetrics{
-								Scope: sm.Scope,
+								Scope:     sm.Scope,
+								SchemaUrl: sm.SchemaUrl,
 							}
 						}
 						scope.Metrics = append(scope.Metrics, &metricsV1.Metric{
-							Name: ms.Name,
+							Name:        ms.Name,
+							Description: ms.Description,
+							Unit:        ms.Unit,
+							Metadata:    ms.Metadata,
 							Data: &metricsV1.Metric_ExponentialHistogram{
 								ExponentialHistogram: &metricsV1.ExponentialHistogram{
 									DataPoints:             points,
@@ -141,11 +157,15 @@ func (Metrics) Visit(data *metricsV1.MetricsData, visitor *All) *metricsV1.Metri
 					if len(points) > 0 {
 						if scope == nil {
 							scope = &metricsV1.ScopeMetrics{
-								Scope: sm.Scope,
+								Scope:     sm.Scope,
+								SchemaUrl: sm.SchemaUrl,
 							}
 						}
 						scope.Metrics = append(scope.Metrics, &metricsV1.Metric{
-							Name: ms.Name,
+							Name:        ms.Name,
+							Description: ms.Description,
+							Unit:        ms.Unit,
+							Metadata:    ms.Metadata,
 							Data: &metricsV1.Metric_Summary{
 								Summary: &metricsV1.Summary{
 									DataPoints: points,
diff --git a/internal/visit/trace.go b/internal/visit/trace.go
index 3a25c95..5c0aa20 100644
--- a/internal/visit/trace.go
+++ b/internal/visit/trace.go
@@ -32,7 +32,8 @@ func (Trace) Visit(data *tracev1.TracesData, visitor *All) *tracev1.TracesData {
 				}
 				if scope == nil {
 					scope = &tracev1.ScopeSpans{
-						Scope: sm.Scope,
+						Scope:     sm.Scope,
+						SchemaUrl: sm.SchemaUrl,
 					}
 				}
 				scope.Spans = append(scope.Spans, ms)
-- 
2.43.0


From 50c8968d6182aa51e61d12d33250d27c71c722c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:01 +0000
Subject: [PATCH 17/48] fix: visit: report the end of the time range

---
 internal/visit/visit.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/visit/visit.go b/internal/visit/visit.go
index 0436c0f..6dfcb85 100644
--- a/internal/visit/visit.go
+++ b/internal/visit/visit.go
@@ -270,7 +270,7 @@ func (a *All) AcceptAttributes(attr []*commonV1.KeyValue) bool {
 }
 
 func (a *All) TimeRange() (start, end uint64) {
-	return a.start_nano, a.start_nano
+	return a.start_nano, a.end_nano
 }
 
 func (a *All) AcceptLogLevel(lvl string) bool {
-- 
2.43.0


From d72a04b65cb07cf7fa7f034656dac8c989586961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:54 +0000
Subject: [PATCH 18/48] fix: transform: unknown timestamps do not decide when a
 sample happened

---
 internal/transform/transform.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/internal/transform/transform.go b/internal/transform/transform.go
index 5084ff3..eabd208 100644
--- a/internal/transform/transform.go
+++ b/internal/transform/transform.go
@@ -182,11 +182,7 @@ func (c *Context) attributes(prefix v1.PREFIX, kv []*commonv1.KeyValue) {
 }
 
 func (c *Context) Timestamp(ts uint64) {
-	if c.minTs == 0 {
-		c.minTs = ts
-	}
-	c.minTs = min(c.minTs, ts)
-	c.maxTs = max(c.maxTs, ts)
+	c.Range(ts, ts)
 }
 
 func (c *Context) Reset() {
@@ -197,10 +193,11 @@ func (c *Context) Reset() {
 	c.label = labels.Label{}
 }
 
+// Range widens the time covered by the sample. Zero start means unknown, it is
+// only used when there is nothing else.
 func (c *Context) Range(start, end uint64) {
-	if c.minTs == 0 {
+	if start != 0 && (c.minTs == 0 || start < c.minTs) {
 		c.minTs = start
 	}
-	c.minTs = min(c.minTs, start)
 	c.maxTs = max(c.maxTs, end)
 }
-- 
2.43.0


From 37a3a1120e6f280f55d73cad0312bc5d1900b3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:55 +0000
Subject: [PATCH 19/48] fix: translate: concurrent translations of a new key
 agree on its id

---
 internal/translate/translate.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/internal/translate/translate.go b/internal/translate/translate.go
index d857d22..0959a6a 100644
--- a/internal/translate/translate.go
+++ b/internal/translate/translate.go
@@ -77,7 +77,19 @@ func (b *Translate) TranslateBulkID(ids []uint64, f func(key []byte) error) (err
 	return
 }
 
+// TranslateKey returns the id of key, a new one is assigned if key was never seen
+// before. It is safe for concurrent use.
 func (b *Translate) TranslateKey(key []byte) (n uint64, err error) {
+	for {
+		n, err = b.translateKey(key)
+		// Someone else assigned an id for the same key. Try again to use it.
+		if !errors.Is(err, badger.ErrConflict) {
+			return
+		}
+	}
+}
+
+func (b *Translate) translateKey(key []byte) (n uint64, err error) {
 	err = b.db.Update(func(txn *badger.Txn) error {
 		g := get()
 		g.Write(b.keys)
-- 
2.43.0


From 140e6009fa6f09c4e0177baded057e1acb7d4b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:58 +0000
Subject: [PATCH 20/48] fix: translate: accept keys of any length

---
 internal/translate/translate.go | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/internal/translate/translate.go b/internal/translate/translate.go
index 0959a6a..b2554bf 100644
--- a/internal/translate/translate.go
+++ b/internal/translate/translate.go
@@ -2,6 +2,7 @@ package translate
 
 import (
 	"bytes"
+	"crypto/sha256"
 	"encoding/binary"
 	"errors"
 	"slices"
@@ -93,7 +94,7 @@ func (b *Translate) translateKey(key []byte) (n uint64, err error) {
 	err = b.db.Update(func(txn *badger.Txn) error {
 		g := get()
 		g.Write(b.keys)
-		g.Write(key)
+		writeKey(g, key)
 		defer put(g)
 		it, err := txn.Get(g.Bytes())
 		if err != nil {
@@ -123,6 +124,22 @@ func (b *Translate) translateKey(key []byte) (n uint64, err error) {
 	return
 }
 
+// maxKey is the longest key stored verbatim. Badger rejects keys longer than
+// 65000 bytes.
+const maxKey = 32 << 10
+
+// writeKey writes what identifies key in the database. Digest is used in place of
+// the tail of long keys.
+func writeKey(g *bytes.Buffer, key []byte) {
+	if len(key) <= maxKey {
+		g.Write(key)
+		return
+	}
+	h := sha256.Sum256(key)
+	g.Write(key[:maxKey])
+	g.Write(h[:])
+}
+
 func get() *bytes.Buffer {
 	return kb.Get().(*bytes.Buffer)
 }
@@ -137,8 +154,11 @@ var kb = &sync.Pool{New: func() any { return new(bytes.Buffer) }}
 // Find finds translated key. Returns 0 if no key was found
 func (b *Translate) Find(key []byte) (n uint64, err error) {
 	err = b.db.Update(func(txn *badger.Txn) error {
-		k := append(b.keys, key...)
-		it, err := txn.Get(k)
+		g := get()
+		g.Write(b.keys)
+		writeKey(g, key)
+		defer put(g)
+		it, err := txn.Get(g.Bytes())
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 187e20711eb4f73b2a00f90c73d72cbcad007aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:29 +0000
Subject: [PATCH 21/48] fix: service: accepted samples survive a graceful
 shutdown

---
 internal/service/service.go | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/internal/service/service.go b/internal/service/service.go
index 80e548f..6ef2693 100644
--- a/internal/service/service.go
+++ b/internal/service/service.go
@@ -34,6 +34,7 @@ type Service struct {
 	store    *store.Storage
 	dataMu   sync.Mutex
 	data     *samples.List
+	saveMu   sync.Mutex
 	seq      *seq.Seq
 	stats    struct {
 		processed metric.Int64Counter
@@ -87,19 +88,31 @@ func (s *Service) start(ctx context.Context) {
 		case <-ctx.Done():
 			return
 		case <-tick.C:
-			s.dataMu.Lock()
-			ls := s.data
-			s.data = samples.Get()
-			s.dataMu.Unlock()
-			err := s.store.SaveSamples(ctx, ls)
-			if err != nil {
-				slog.Error("Failed to save samples", "err", err)
-			}
-			ls.Release()
+			s.flush()
 		}
 	}
 }
 
+// flush saves buffered samples. Clients already know that these samples were
+// accepted, so shutting down must not interrupt saving them.
+func (s *Service) flush() {
+	s.saveMu.Lock()
+	defer s.saveMu.Unlock()
+
+	s.dataMu.Lock()
+	ls := s.data
+	s.data = samples.Get()
+	s.dataMu.Unlock()
+	defer ls.Release()
+	if len(ls.Items) == 0 {
+		return
+	}
+	err := s.store.SaveSamples(context.Background(), ls)
+	if err != nil {
+		slog.Error("Failed to save samples", "err", err)
+	}
+}
+
 func (s *Service) Save(data *v1.Data) error {
 	s.dataMu.Lock()
 	defer s.dataMu.Unlock()
@@ -110,7 +123,9 @@ func (s *Service) Save(data *v1.Data) error {
 	return nil
 }
 
+// Close saves all accepted samples before releasing resources.
 func (s *Service) Close() {
+	s.flush()
 	s.store.Close()
 	s.snippets.Close()
 }
-- 
2.43.0


From ed09e86a305efe5b6564f2cd8a5f574c58573c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:34 +0000
Subject: [PATCH 22/48] verif: hook the flush interval

---
 internal/service/hooks_off.go   |  7 +++++++
 internal/service/hooks_verif.go | 16 ++++++++++++++++
 internal/service/service.go     |  2 +-
 3 files changed, 24 insertions(+), 1 deletion(-)
 create mode 100644 internal/service/hooks_off.go
 create mode 100644 internal/service/hooks_verif.go

diff --git a/internal/service/hooks_off.go b/internal/service/hooks_off.go
new file mode 100644
index 0000000..faa5999
--- /dev/null
+++ b/internal/service/hooks_off.go
@@ -0,0 +1,7 @@
+//go:build !verif
+
+package service
+
+import "time"
+
+const flushInterval = time.Minute
diff --git a/internal/service/hooks_verif.go b/internal/service/hooks_verif.go
new file mode 100644
index 0000000..5351b25
--- /dev/null
+++ b/internal/service/hooks_verif.go
@@ -0,0 +1,16 @@
+//go:build verif
+
+package service
+
+import (
+	"os"
+	"time"
+)
+
+// flushInterval can be shortened by verification builds.
+var flushInterval = func() time.Duration {
+	if d, err := time.ParseDuration(os.Getenv("VERIF_FLUSH_INTERVAL")); err == nil && d > 0 {
+		return d
+	}
+	return time.Minute
+}()
diff --git a/internal/service/service.go b/internal/service/service.go
index 6ef2693..51ac28a 100644
--- a/internal/service/service.go
+++ b/internal/service/service.go
@@ -81,7 +81,7 @@ func (s *Service) Start(ctx context.Context) {
 }
 
 func (s *Service) start(ctx context.Context) {
-	tick := time.NewTicker(time.Minute)
+	tick := time.NewTicker(flushInterval)
 	defer tick.Stop()
 	for {
 		select {
-- 
2.43.0


From 641b3fe848627ce8aaa64a06591bfdc98a5f05e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:20 +0000
Subject: [PATCH 23/48] fix: rq: SIGTERM is a graceful shutdown too

---
 cmd/rq/main.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/rq/main.go b/cmd/rq/main.go
index d99c0a0..f8e3beb 100644
--- a/cmd/rq/main.go
+++ b/cmd/rq/main.go
@@ -8,6 +8,7 @@ import (
 	"os"
 	"os/signal"
 	"strconv"
+	"syscall"
 	"time"
 
 	"github.com/dgraph-io/badger/v4"
@@ -69,7 +70,7 @@ func main() {
 }
 
 func run(ctx context.Context, cmd *cli.Command) (exit error) {
-	ctx, cancel := signal.NotifyContext(ctx, os.Interrupt)
+	ctx, cancel := signal.NotifyContext(ctx, os.Interrupt, syscall.SIGTERM)
 	defer cancel()
 
 	data := cmd.Args().First()
-- 
2.43.0


From 0c673bc26aecd69802355cf64ff2958b993335d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:24 +0000
Subject: [PATCH 24/48] fix: store: scans respect limit and reverse

---
 internal/store/scan.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/internal/store/scan.go b/internal/store/scan.go
index 52ffd98..1e71330 100644
--- a/internal/store/scan.go
+++ b/internal/store/scan.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"fmt"
 	"log/slog"
+	"slices"
 
 	"github.com/dgraph-io/badger/v4"
 	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
@@ -54,6 +55,8 @@ func (s *Storage) Scan(ctx context.Context, scan *v1.Scan) (result *v1.Data, err
 		last := samples.ReverseIterator().Next()
 		samples.Clear()
 		samples.Add(last)
+	} else {
+		limitSamples(samples, scan.Limit, scan.Reverse)
 	}
 	var rs []*v1.Data
 	switch resource {
@@ -72,9 +75,29 @@ func (s *Storage) Scan(ctx context.Context, scan *v1.Scan) (result *v1.Data, err
 	if len(rs) == 0 {
 		return data.Zero(resource), nil
 	}
+	if scan.Reverse {
+		slices.Reverse(rs)
+	}
 	return data.Collapse(rs), nil
 }
 
+// limitSamples keeps only the first limit samples, or the last ones when reverse
+// is true. Zero means there is no limit.
+func limitSamples(samples *bitmaps.Bitmap, limit uint64, reverse bool) {
+	n := samples.GetCardinality()
+	if limit == 0 || limit >= n {
+		return
+	}
+	if reverse {
+		// Select is zero based, error is impossible because we know cardinality.
+		first, _ := samples.Select(n - limit)
+		samples.RemoveRange(0, first)
+		return
+	}
+	last, _ := samples.Select(limit)
+	samples.RemoveRange(last, samples.Maximum()+1)
+}
+
 func (s *Storage) CompileFilters(scan *v1.Scan, r *bitmaps.Bitmap) error {
 	lbl := labels.NewLabel()
 	defer lbl.Release()
-- 
2.43.0


From 1556ea72026c78132bacd1da318b15337193c3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:40 +0000
Subject: [PATCH 25/48] fix: js: time computations are relative to the scan
 evaluation time

---
 internal/js/rq.go   | 2 +-
 internal/js/scan.go | 7 ++++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/internal/js/rq.go b/internal/js/rq.go
index 42352a6..ffcaf2e 100644
--- a/internal/js/rq.go
+++ b/internal/js/rq.go
@@ -90,7 +90,7 @@ func (r *JS) Scan(a *v1.Scan) (*v1.Data, error) {
 		vs := visit.New()
 		defer vs.Release()
 
-		start, end := x.TimeBounds(x.UTC, a)
+		start, end := x.TimeBounds(r.GetNow, a)
 		vs.SetTimeRange(uint64(start.UnixNano()), uint64(end.UnixNano()))
 		vs.Compile(a.Filters...)
 		return vs.Visit(data), nil
diff --git a/internal/js/scan.go b/internal/js/scan.go
index b3f90a1..2a190c7 100644
--- a/internal/js/scan.go
+++ b/internal/js/scan.go
@@ -159,8 +159,13 @@ func (s *Scan) rangeTS(from, to time.Time) {
 	}
 }
 
+// ts returns scan evaluation time.
 func (s *Scan) ts() time.Time {
-	return s.o.GetNow()
+	ts := s.o.GetNow()
+	if s.scan.Now != nil {
+		return s.scan.Now.AsTime().In(ts.Location())
+	}
+	return ts
 }
 
 func (s *Scan) base(prop v1.Scan_BaseProp, value string) {
-- 
2.43.0


From fdee78e9627dcf5b9cdda909cd700105e4e99ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:41 +0000
Subject: [PATCH 26/48] fix: js: scripts never share a runtime

---
 internal/js/rq.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/internal/js/rq.go b/internal/js/rq.go
index ffcaf2e..ecb8c7a 100644
--- a/internal/js/rq.go
+++ b/internal/js/rq.go
@@ -4,7 +4,6 @@ import (
 	"errors"
 	"fmt"
 	"io"
-	"sync"
 	"time"
 
 	"github.com/dop251/goja"
@@ -28,8 +27,10 @@ type JS struct {
 	ScanRequest *v1.Scan
 }
 
+// New returns a fresh javascript runtime. Scripts can change anything in their
+// runtime, so it is never shared between them.
 func New() *JS {
-	return jsPool.Get().(*JS)
+	return newJS()
 }
 
 func (o *JS) WithNow(now NowFunc) *JS {
@@ -53,7 +54,6 @@ func (o *JS) GetNow() time.Time {
 
 func (o *JS) Release() {
 	o.Reset()
-	jsPool.Put(o)
 }
 
 func newJS() *JS {
@@ -73,8 +73,6 @@ func newJS() *JS {
 	return o
 }
 
-var jsPool = &sync.Pool{New: func() any { return newJS() }}
-
 func (r *JS) Scan(a *v1.Scan) (*v1.Data, error) {
 	r.ScanRequest = a
 	if r.ScanFn != nil {
-- 
2.43.0


From 310986bc59a8467e69206e7888a67efc329dc501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:42 +0000
Subject: [PATCH 27/48] fix: render: attributes without a value

---
 internal/render/attribute.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/render/attribute.go b/internal/render/attribute.go
index 8a64086..c069bd0 100644
--- a/internal/render/attribute.go
+++ b/internal/render/attribute.go
@@ -18,7 +18,7 @@ func attr(kv []*v1.KeyValue) string {
 }
 
 func value(b *bytes.Buffer, v *v1.AnyValue) {
-	switch e := v.Value.(type) {
+	switch e := v.GetValue().(type) {
 	case *v1.AnyValue_StringValue:
 		fmt.Fprintf(b, "%q", e.StringValue)
 	case *v1.AnyValue_BoolValue:
@@ -29,7 +29,7 @@ func value(b *bytes.Buffer, v *v1.AnyValue) {
 		fmt.Fprintf(b, "%v", e.DoubleValue)
 	case *v1.AnyValue_ArrayValue:
 		b.WriteByte('[')
-		for i, a := range e.ArrayValue.Values {
+		for i, a := range e.ArrayValue.GetValues() {
 			if i != 0 {
 				b.WriteByte(',')
 				b.WriteByte(' ')
@@ -39,7 +39,7 @@ func value(b *bytes.Buffer, v *v1.AnyValue) {
 		b.WriteByte(']')
 	case *v1.AnyValue_KvlistValue:
 		b.WriteByte('{')
-		for i, a := range e.KvlistValue.Values {
+		for i, a := range e.KvlistValue.GetValues() {
 			if i != 0 {
 				b.WriteByte(',')
 				b.WriteByte(' ')
@@ -50,7 +50,7 @@ func value(b *bytes.Buffer, v *v1.AnyValue) {
 			b.WriteString(" = ")
 			value(b, a.Value)
 		}
-		if len(e.KvlistValue.Values) > 0 {
+		if len(e.KvlistValue.GetValues()) > 0 {
 			b.WriteByte(' ')
 		}
 		b.WriteByte('}')
-- 
2.43.0


From 346c87b11dea375c424df1b20e67b91c37cfe288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:15 +0000
Subject: [PATCH 28/48] fix: compress: reading after the end is EOF

---
 internal/compress/grpc.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/compress/grpc.go b/internal/compress/grpc.go
index d2398f8..2d77e23 100644
--- a/internal/compress/grpc.go
+++ b/internal/compress/grpc.go
@@ -48,6 +48,9 @@ type readCodec struct {
 }
 
 func (r *readCodec) Read(p []byte) (n int, err error) {
+	if r.Decoder == nil {
+		return 0, io.EOF
+	}
 	n, err = r.Decoder.Read(p)
 	if err != nil {
 		r.Reset(nil)
@@ -58,6 +61,9 @@ func (r *readCodec) Read(p []byte) (n int, err error) {
 }
 
 func (r *readCodec) WriteTo(w io.Writer) (n int64, err error) {
+	if r.Decoder == nil {
+		return 0, nil
+	}
 	n, err = r.Decoder.WriteTo(w)
 	r.Reset(nil)
 	putDecoder(r.Decoder)
-- 
2.43.0


From 30892cfbd9eff3b73a02578ba09dce6f4e659572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:17 +0000
Subject: [PATCH 29/48] fix: render: negative sizes

---
 internal/render/unit.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/render/unit.go b/internal/render/unit.go
index a0b1b7c..d3e75d2 100644
--- a/internal/render/unit.go
+++ b/internal/render/unit.go
@@ -20,6 +20,9 @@ func formatUnit(value float64, unit string) string {
 	case "ns":
 		return time.Duration(value * float64(time.Nanosecond)).String()
 	case "By":
+		if value < 0 {
+			return "-" + humanize.IBytes(uint64(-value))
+		}
 		return humanize.IBytes(uint64(value))
 	default:
 		return fmt.Sprint(value)
-- 
2.43.0


From 020ce5b6a7cba8e66faf76721bb35c74a806ebf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:19 +0000
Subject: [PATCH 30/48] fix: query: never execute a partially written cached
 script

---
 internal/commands/query/query.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/internal/commands/query/query.go b/internal/commands/query/query.go
index 61b012b..9088440 100644
--- a/internal/commands/query/query.go
+++ b/internal/commands/query/query.go
@@ -86,7 +86,7 @@ func build(log *slog.Logger, data []byte) (*goja.Program, error) {
 			if err != nil {
 				return nil, err
 			}
-			err = os.WriteFile(key, cached, 0600)
+			err = writeCache(key, cached)
 			if err != nil {
 				return nil, err
 			}
@@ -98,3 +98,20 @@ func build(log *slog.Logger, data []byte) (*goja.Program, error) {
 	}
 	return goja.Compile("scan.js", string(cached), true)
 }
+
+// writeCache makes sure no one ever reads a partially written package.
+func writeCache(key string, data []byte) error {
+	f, err := os.CreateTemp(filepath.Dir(key), "tmp-*")
+	if err != nil {
+		return err
+	}
+	_, err = f.Write(data)
+	err = errors.Join(err, f.Close())
+	if err == nil {
+		err = os.Rename(f.Name(), key)
+	}
+	if err != nil {
+		os.Remove(f.Name())
+	}
+	return err
+}
-- 
2.43.0


From e99ff1e21c1887b7605e6dc6d1e9059a8d34856c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:13 +0000
Subject: [PATCH 31/48] fix: rows: Float64 of a value that is not a float

---
 internal/rows/row.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/rows/row.go b/internal/rows/row.go
index 906b73e..ec93ab8 100644
--- a/internal/rows/row.go
+++ b/internal/rows/row.go
@@ -103,7 +103,7 @@ func (v Value) Int() uint64 {
 }
 
 func (v Value) Float64() float64 {
-	if v.int != nil {
+	if v.double != nil {
 		return *v.double
 	}
 	return 0
-- 
2.43.0


From ce7786d292ecb3f0744b5537277f4ce9af2c1266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:22 +0000
Subject: [PATCH 32/48] fix: store tell labels with equal 64 bit hash apart

---
 internal/store/store.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/store/store.go b/internal/store/store.go
index 3ea5e44..d2d2e22 100644
--- a/internal/store/store.go
+++ b/internal/store/store.go
@@ -4,7 +4,6 @@ import (
 	"context"
 	"time"
 
-	"github.com/cespare/xxhash/v2"
 	"github.com/dgraph-io/badger/v4"
 	"github.com/dgraph-io/ristretto"
 	"github.com/gernest/rbf"
@@ -56,15 +55,16 @@ func NewStore(db *badger.DB, rdb *shards.Shards, tr *translate.Translate, seq *s
 }
 
 func (s *Storage) Translate(key []byte) uint64 {
-	h := xxhash.Sum64(key)
-	if v, ok := s.columnsCache.Get(h); ok {
+	// The cache tells apart keys by two hashes, one of them is seeded. A single
+	// 64 bit hash is easy to collide, mixing up columns of different labels.
+	if v, ok := s.columnsCache.Get(key); ok {
 		return v.(uint64)
 	}
 	v, err := s.translate.TranslateKey(key)
 	if err != nil {
 		logger.Fail("BUG: failed tp translate column", "err", err)
 	}
-	s.columnsCache.Set(h, v, 8)
+	s.columnsCache.Set(key, v, 8)
 	return v
 }
 
-- 
2.43.0


From 623816ef86b39300b4073dbc26e545ac5bb85945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:57 +0000
Subject: [PATCH 33/48] fix: data collapse never merge by a hash telemetry can
 collide

---
 internal/data/sort.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/data/sort.go b/internal/data/sort.go
index 3bea955..dd41362 100644
--- a/internal/data/sort.go
+++ b/internal/data/sort.go
@@ -2,10 +2,10 @@ package data
 
 import (
 	"encoding/binary"
+	"hash/maphash"
 	"slices"
 	"sort"
 
-	"github.com/cespare/xxhash/v2"
 	commonv1 "go.opentelemetry.io/proto/otlp/common/v1"
 	metricsV1 "go.opentelemetry.io/proto/otlp/metrics/v1"
 	resourcev1 "go.opentelemetry.io/proto/otlp/resource/v1"
@@ -13,7 +13,7 @@ import (
 )
 
 type Sorter[T any, R any, S any] struct {
-	h        xxhash.Digest
+	h        maphash.Hash // seeded, telemetry must not be able to choose collisions
 	resource map[uint64]R
 	scope    map[uint64]S
 	metrics  map[uint64]T
-- 
2.43.0


From 509ec0f67bd075fb2dec49d6ac821b96c2d7fe3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:57 +0000
Subject: [PATCH 34/48] fix: visit filters can't be collided by telemetry

---
 internal/visit/visit.go | 58 +++++++++++++++++++++++++----------------
 1 file changed, 36 insertions(+), 22 deletions(-)

diff --git a/internal/visit/visit.go b/internal/visit/visit.go
index 6dfcb85..f67d667 100644
--- a/internal/visit/visit.go
+++ b/internal/visit/visit.go
@@ -3,10 +3,10 @@ package visit
 import (
 	"encoding/binary"
 	"encoding/hex"
+	"hash/maphash"
 	"sync"
 
 	"github.com/RoaringBitmap/roaring/roaring64"
-	"github.com/cespare/xxhash/v2"
 	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
 	"github.com/gernest/requiemdb/internal/bitmaps"
 	commonV1 "go.opentelemetry.io/proto/otlp/common/v1"
@@ -151,8 +151,20 @@ func (a *All) Release() {
 	allPool.Put(a)
 }
 
+// Values are matched by hash. The seed makes sure telemetry can't be crafted to
+// collide with what is asked for.
+var seed = maphash.MakeSeed()
+
+func sum(b []byte) uint64 {
+	return maphash.Bytes(seed, b)
+}
+
+func sumString(s string) uint64 {
+	return maphash.String(seed, s)
+}
+
 func (a *All) SetResourceSchema(schema string) {
-	a.resource_schema.Add(xxhash.Sum64String(schema))
+	a.resource_schema.Add(sumString(schema))
 }
 
 func (a *All) SetResourceAttr(k, v string) {
@@ -160,13 +172,14 @@ func (a *All) SetResourceAttr(k, v string) {
 }
 
 func attr(k, v string) uint64 {
-	var h xxhash.Digest
+	var h maphash.Hash
+	h.SetSeed(seed)
 	return hashAttr(&h, k, v)
 }
 
 // hashAttr hashes a key value pair. Key length is part of the hash to make sure
 // we never mix up where key ends and value starts.
-func hashAttr(h *xxhash.Digest, k, v string) uint64 {
+func hashAttr(h *maphash.Hash, k, v string) uint64 {
 	var size [8]byte
 	binary.LittleEndian.PutUint64(size[:], uint64(len(k)))
 	h.Reset()
@@ -177,14 +190,14 @@ func hashAttr(h *xxhash.Digest, k, v string) uint64 {
 }
 
 func (a *All) SetScopeSchema(schema string) {
-	a.scope_schema.Add(xxhash.Sum64String(schema))
+	a.scope_schema.Add(sumString(schema))
 }
 func (a *All) SetScopeName(name string) {
-	a.scope_name.Add(xxhash.Sum64String(name))
+	a.scope_name.Add(sumString(name))
 }
 
 func (a *All) SetScopVersion(version string) {
-	a.scope_version.Add(xxhash.Sum64String(version))
+	a.scope_version.Add(sumString(version))
 }
 
 func (a *All) SetScopeAttr(k, v string) {
@@ -196,7 +209,7 @@ func (a *All) SetAttr(k, v string) {
 }
 
 func (a *All) SetName(name string) {
-	a.name.Add(xxhash.Sum64String(name))
+	a.name.Add(sumString(name))
 }
 
 func (a *All) SetTraceID(id string) error {
@@ -204,7 +217,7 @@ func (a *All) SetTraceID(id string) error {
 	if err != nil {
 		return err
 	}
-	a.trace_id.Add(xxhash.Sum64(h))
+	a.trace_id.Add(sum(h))
 	return nil
 }
 
@@ -213,7 +226,7 @@ func (a *All) SetSpanID(id string) error {
 	if err != nil {
 		return err
 	}
-	a.span_id.Add(xxhash.Sum64(h))
+	a.span_id.Add(sum(h))
 	return nil
 }
 
@@ -222,12 +235,12 @@ func (a *All) SetParentSpanID(id string) error {
 	if err != nil {
 		return err
 	}
-	a.parent_span_id.Add(xxhash.Sum64(h))
+	a.parent_span_id.Add(sum(h))
 	return nil
 }
 
 func (a *All) SetLogLevel(lvl string) {
-	a.log_level.Add(xxhash.Sum64String(lvl))
+	a.log_level.Add(sumString(lvl))
 }
 
 func (a *All) SetTimeRange(start, end uint64) {
@@ -238,7 +251,7 @@ func (a *All) AcceptResourceSchema(schema string) bool {
 	if a.resource_schema.IsEmpty() {
 		return true
 	}
-	return a.resource_schema.Contains(xxhash.Sum64String(schema))
+	return a.resource_schema.Contains(sumString(schema))
 }
 
 func (a *All) AcceptResourceAttributes(kv []*commonV1.KeyValue) bool {
@@ -246,15 +259,15 @@ func (a *All) AcceptResourceAttributes(kv []*commonV1.KeyValue) bool {
 }
 func (a *All) AcceptScopeSchema(schema string) bool {
 	return a.scope_schema.IsEmpty() ||
-		a.scope_schema.Contains(xxhash.Sum64String(schema))
+		a.scope_schema.Contains(sumString(schema))
 }
 func (a *All) AcceptScopeName(name string) bool {
 	return a.scope_name.IsEmpty() ||
-		a.scope_name.Contains(xxhash.Sum64String(name))
+		a.scope_name.Contains(sumString(name))
 }
 func (a *All) AcceptScopeVersion(version string) bool {
 	return a.scope_version.IsEmpty() ||
-		a.scope_version.Contains(xxhash.Sum64String(version))
+		a.scope_version.Contains(sumString(version))
 }
 func (a *All) AcceptScopeAttributes(attr []*commonV1.KeyValue) bool {
 	return matchAttr(&a.scope_attr, attr)
@@ -262,7 +275,7 @@ func (a *All) AcceptScopeAttributes(attr []*commonV1.KeyValue) bool {
 
 func (a *All) AcceptName(name string) bool {
 	return a.name.IsEmpty() ||
-		a.name.Contains(xxhash.Sum64String(name))
+		a.name.Contains(sumString(name))
 }
 
 func (a *All) AcceptAttributes(attr []*commonV1.KeyValue) bool {
@@ -275,16 +288,16 @@ func (a *All) TimeRange() (start, end uint64) {
 
 func (a *All) AcceptLogLevel(lvl string) bool {
 	return a.log_level.IsEmpty() ||
-		a.log_level.Contains(xxhash.Sum64String(lvl))
+		a.log_level.Contains(sumString(lvl))
 }
 func (a *All) AcceptTraceID(id []byte) bool {
-	return a.trace_id.IsEmpty() || a.trace_id.Contains(xxhash.Sum64(id))
+	return a.trace_id.IsEmpty() || a.trace_id.Contains(sum(id))
 }
 func (a *All) AcceptSpanID(id []byte) bool {
-	return a.span_id.IsEmpty() || a.span_id.Contains(xxhash.Sum64(id))
+	return a.span_id.IsEmpty() || a.span_id.Contains(sum(id))
 }
 func (a *All) AcceptParentSpanID(id []byte) bool {
-	return a.parent_span_id.IsEmpty() || a.parent_span_id.Contains(xxhash.Sum64(id))
+	return a.parent_span_id.IsEmpty() || a.parent_span_id.Contains(sum(id))
 }
 
 func (a *All) AcceptTimestamp(ts uint64) bool {
@@ -297,7 +310,8 @@ func matchAttr(a *roaring64.Bitmap, ls []*commonV1.KeyValue) bool {
 	}
 	b := bitmaps.New()
 	defer b.Release()
-	var h xxhash.Digest
+	var h maphash.Hash
+	h.SetSeed(seed)
 	for _, k := range ls {
 		switch e := k.GetValue().GetValue().(type) {
 		case *commonV1.AnyValue_StringValue:
-- 
2.43.0


From e1075e9b08549ef128d200ff4469be11a294c1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:55 +0000
Subject: [PATCH 35/48] fix: query never run a cached package of another script
 or version

---
 internal/commands/query/query.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/internal/commands/query/query.go b/internal/commands/query/query.go
index 9088440..59d2a9b 100644
--- a/internal/commands/query/query.go
+++ b/internal/commands/query/query.go
@@ -2,19 +2,20 @@ package query
 
 import (
 	"context"
+	"crypto/sha256"
+	"encoding/hex"
 	"errors"
-	"fmt"
 	"log/slog"
 	"os"
 	"path/filepath"
 	"time"
 
-	"github.com/cespare/xxhash/v2"
 	"github.com/dop251/goja"
 	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
 	"github.com/gernest/requiemdb/internal/commands"
 	"github.com/gernest/requiemdb/internal/compile"
 	"github.com/gernest/requiemdb/internal/js"
+	"github.com/gernest/requiemdb/internal/js/bundle"
 	"github.com/gernest/requiemdb/internal/logger"
 	"github.com/urfave/cli/v3"
 )
@@ -76,8 +77,7 @@ func run(ctx context.Context, cmd *cli.Command) error {
 }
 
 func build(log *slog.Logger, data []byte) (*goja.Program, error) {
-	hash := xxhash.Sum64(data)
-	key := filepath.Join(commands.Cache(), fmt.Sprint(hash))
+	key := filepath.Join(commands.Cache(), cacheKey(data))
 	cached, err := os.ReadFile(key)
 	if err != nil {
 		if os.IsNotExist(err) {
@@ -99,6 +99,16 @@ func build(log *slog.Logger, data []byte) (*goja.Program, error) {
 	return goja.Compile("scan.js", string(cached), true)
 }
 
+// cacheKey identifies the package compiled from data. Compiled packages include
+// the bundled library, which changes between versions.
+func cacheKey(data []byte) string {
+	h := sha256.New()
+	lib := sha256.Sum256(bundle.PKG[bundle.Base])
+	h.Write(lib[:])
+	h.Write(data)
+	return hex.EncodeToString(h.Sum(nil))
+}
+
 // writeCache makes sure no one ever reads a partially written package.
 func writeCache(key string, data []byte) error {
 	f, err := os.CreateTemp(filepath.Dir(key), "tmp-*")
-- 
2.43.0


From 43b3a9fd01033774431651b5ff373bc607bd215c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:13 +0000
Subject: [PATCH 36/48] fix: js time ranges are relative to scan now set after
 them

---
 internal/js/scan.go | 47 ++++++++++++++++++++++++++++-----------------
 1 file changed, 29 insertions(+), 18 deletions(-)

diff --git a/internal/js/scan.go b/internal/js/scan.go
index 2a190c7..947cd61 100644
--- a/internal/js/scan.go
+++ b/internal/js/scan.go
@@ -12,6 +12,8 @@ import (
 type Scan struct {
 	o    *JS
 	scan *v1.Scan
+	// relative computes start of the time range from scan evaluation time.
+	relative func(ts time.Time) time.Time
 }
 
 func (s *Scan) Scan() *v1.Scan {
@@ -54,6 +56,9 @@ func (s *Scan) Offset(duration string) error {
 func (s *Scan) Now(ms int64) {
 	ts := time.UnixMilli(ms).UTC()
 	s.scan.Now = timestamppb.New(ts)
+	if s.relative != nil {
+		s.since(s.relative)
+	}
 }
 
 func (s *Scan) Reverse() {
@@ -109,49 +114,55 @@ func (s *Scan) Attr(key, value string) {
 }
 
 func (s *Scan) TimeRange(from, to int64) {
+	s.relative = nil
 	s.rangeTS(
 		time.UnixMilli(from).UTC(), time.UnixMilli(to).UTC(),
 	)
 }
 
 func (s *Scan) Today() {
-	ts := s.ts()
-	s.rangeTS(
-		now.With(ts).BeginningOfDay(), ts,
-	)
+	s.since(func(ts time.Time) time.Time {
+		return now.With(ts).BeginningOfDay()
+	})
 }
 
 func (s *Scan) ThisWeek() {
-	ts := s.ts()
-	s.rangeTS(
-		now.With(ts).BeginningOfWeek(), ts,
-	)
+	s.since(func(ts time.Time) time.Time {
+		return now.With(ts).BeginningOfWeek()
+	})
 }
 
 func (s *Scan) ThisMonth() {
-	ts := s.ts()
-	s.rangeTS(
-		now.With(ts).BeginningOfMonth(), ts,
-	)
+	s.since(func(ts time.Time) time.Time {
+		return now.With(ts).BeginningOfMonth()
+	})
 }
 
 func (s *Scan) ThisYear() {
-	ts := s.ts()
-	s.rangeTS(
-		now.With(ts).BeginningOfYear(), ts,
-	)
+	s.since(func(ts time.Time) time.Time {
+		return now.With(ts).BeginningOfYear()
+	})
 }
 
 func (s *Scan) Ago(duration string) error {
-	ts := s.ts()
 	d, err := time.ParseDuration(duration)
 	if err != nil {
 		return err
 	}
-	s.rangeTS(ts.Add(-d), ts)
+	s.since(func(ts time.Time) time.Time {
+		return ts.Add(-d)
+	})
 	return nil
 }
 
+// since sets time range that ends at scan evaluation time, whether that is set
+// before or after.
+func (s *Scan) since(start func(ts time.Time) time.Time) {
+	s.relative = start
+	ts := s.ts()
+	s.rangeTS(start(ts), ts)
+}
+
 func (s *Scan) rangeTS(from, to time.Time) {
 	s.scan.TimeRange = &v1.Scan_TimeRange{
 		Start: timestamppb.New(from),
-- 
2.43.0


From 21b8566711b8a56756926dab61b180316eeb0668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:21 +0000
Subject: [PATCH 37/48] fix: rows changed after an operation leave the rows
 they came from alone

---
 internal/rows/bsi.go | 13 +++++++++++--
 internal/rows/row.go | 34 +++++++++++++++++++++++++++-------
 2 files changed, 38 insertions(+), 9 deletions(-)

diff --git a/internal/rows/bsi.go b/internal/rows/bsi.go
index 7b46e28..91233b2 100644
--- a/internal/rows/bsi.go
+++ b/internal/rows/bsi.go
@@ -146,10 +146,10 @@ func AddBSI(x, y BSIData) BSIData {
 		switch {
 		case len(xbitmaps) == 0:
 			// There are no values in x.
-			out = ybitmaps
+			out = freezeAll(ybitmaps)
 		case len(ybitmaps) == 0:
 			// There are no values in y.
-			out = xbitmaps
+			out = freezeAll(xbitmaps)
 		default:
 			out = roaring.Add(xbitmaps, ybitmaps)
 		}
@@ -174,6 +174,15 @@ func AddBSI(x, y BSIData) BSIData {
 	return dst
 }
 
+// freezeAll returns bitmaps that can be changed without changing ls.
+func freezeAll(ls []*roaring.Bitmap) []*roaring.Bitmap {
+	o := make([]*roaring.Bitmap, len(ls))
+	for i := range ls {
+		o[i] = ls[i].Freeze()
+	}
+	return o
+}
+
 // RowBuilder builds a row quickly from individual values.
 // It is optimized for the case in which values are generated sequentially.
 type RowBuilder struct {
diff --git a/internal/rows/row.go b/internal/rows/row.go
index ec93ab8..2bf592c 100644
--- a/internal/rows/row.go
+++ b/internal/rows/row.go
@@ -251,7 +251,7 @@ func NewRowFromRoaring(data []byte) *Row {
 	for i := range bitmaps {
 		segment := RowSegment{
 			shard:    shards[i],
-			data:     bitmaps[i],
+			data:     toSlice(bitmaps[i]),
 			writable: false,
 			n:        bitmaps[i].Count(),
 		}
@@ -260,6 +260,18 @@ func NewRowFromRoaring(data []byte) *Row {
 	return r
 }
 
+// toSlice returns a bitmap of the same containers that can be copied and then
+// written to. Copies of parsed bitmaps (btree containers) take container 0 as
+// absent when they are written to.
+func toSlice(b *roaring.Bitmap) *roaring.Bitmap {
+	o := roaring.NewSliceBitmap()
+	itr, _ := b.Containers.Iterator(0)
+	for itr.Next() {
+		o.Containers.Put(itr.Value())
+	}
+	return o
+}
+
 // Hash calculate checksum code be useful in block hash join
 func (r *Row) Hash() uint64 {
 	hash := uint64(0)
@@ -305,7 +317,7 @@ func (r *Row) Merge(other *Row) {
 	for s0, s1 := itr.next(); s0 != nil || s1 != nil; s0, s1 = itr.next() {
 		// Use the other row's data if segment is missing.
 		if s0 == nil {
-			segments = append(segments, *s1)
+			segments = append(segments, s1.share())
 			continue
 		} else if s1 == nil {
 			segments = append(segments, *s0)
@@ -370,10 +382,10 @@ func (r *Row) Xor(other *Row) *Row {
 	itr := newMergeSegmentIterator(r.Segments, other.Segments)
 	for s0, s1 := itr.next(); s0 != nil || s1 != nil; s0, s1 = itr.next() {
 		if s1 == nil {
-			segments = append(segments, *s0)
+			segments = append(segments, s0.share())
 			continue
 		} else if s0 == nil {
-			segments = append(segments, *s1)
+			segments = append(segments, s1.share())
 			continue
 		}
 
@@ -420,7 +432,7 @@ func (r *Row) Union(others ...*Row) *Row {
 		// Swap the segment lists (so we don't have to reallocate it)
 		segments, nextSegs = nextSegs, segments
 		if len(toProcess) == 1 {
-			output = append(output, *toProcess[0])
+			output = append(output, toProcess[0].share())
 		} else {
 			output = append(output, *toProcess[0].Union(toProcess[1:]...))
 		}
@@ -445,7 +457,7 @@ func (r *Row) Difference(others ...*Row) *Row {
 		if ok {
 			output = append(output, *segment.Difference(dest...))
 		} else {
-			output = append(output, segment)
+			output = append(output, segment.share())
 		}
 	}
 	return &Row{Segments: output}
@@ -637,6 +649,14 @@ func (s *RowSegment) Freeze() {
 	s.data = s.data.Freeze()
 }
 
+// share returns a segment with the same columns that can be changed without
+// changing s and the other way round.
+func (s *RowSegment) share() RowSegment {
+	o := *s
+	o.data = s.data.Freeze()
+	return o
+}
+
 /*
 // Raw returns the row segment as a byte slice.
 // It may be used by the gRPC server to deliver results
@@ -833,7 +853,7 @@ func (itr *mergeSegmentIterator) next() (s0, s1 *RowSegment) {
 		return s0, nil
 	} else if s0.shard > s1.shard {
 		itr.a1 = itr.a1[1:]
-		return s1, nil
+		return nil, s1
 	}
 
 	// Return both if shards are equal.
-- 
2.43.0


From 4c62b09ed0a67ecafe0d311ba3f43cbb8c016bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:47 +0000
Subject: [PATCH 38/48] fix: self metrics buffered for saving keep their
 numbers

---
 internal/self/metrics.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/self/metrics.go b/internal/self/metrics.go
index 40d62f6..9d55824 100644
--- a/internal/self/metrics.go
+++ b/internal/self/metrics.go
@@ -8,6 +8,7 @@ import (
 	"go.opentelemetry.io/otel/sdk/metric/metricdata"
 	collector_metrics "go.opentelemetry.io/proto/otlp/collector/metrics/v1"
 	metricsv1 "go.opentelemetry.io/proto/otlp/metrics/v1"
+	"google.golang.org/protobuf/proto"
 )
 
 type Metrics struct {
@@ -23,6 +24,9 @@ func (m *Metrics) Export(ctx context.Context, rm *metricdata.ResourceMetrics) er
 	if err != nil {
 		return err
 	}
+	// The collector keeps what it is given but rm, and the slices it shares with
+	// tlpRm, are reused by the sdk for the next collection.
+	tlpRm = proto.Clone(tlpRm).(*metricsv1.ResourceMetrics)
 	_, err = m.Collector.Export(ctx, &collector_metrics.ExportMetricsServiceRequest{
 		ResourceMetrics: []*metricsv1.ResourceMetrics{
 			tlpRm,
-- 
2.43.0


From b321b25e31e6838e0545872e9e9ccb986172f79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:41 +0000
Subject: [PATCH 39/48] fix: rq query accepts answers of any size

The connection kept the default limit of 4 MB, so that queries matching more
than that failed.
---
 internal/commands/home.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/commands/home.go b/internal/commands/home.go
index 0d3fa70..55f1d99 100644
--- a/internal/commands/home.go
+++ b/internal/commands/home.go
@@ -1,6 +1,7 @@
 package commands
 
 import (
+	"math"
 	"os"
 	"path/filepath"
 
@@ -58,5 +59,8 @@ func FLags() []cli.Flag {
 func Conn(cmd *cli.Command) (*grpc.ClientConn, error) {
 	return grpc.Dial(cmd.String("remoteAddress"), grpc.WithTransportCredentials(
 		insecure.NewCredentials(),
-	))
+	),
+		// What matches a scan has no limit, the default here is 4 MB.
+		grpc.WithDefaultCallOptions(grpc.MaxCallRecvMsgSize(math.MaxInt32)),
+	)
 }
-- 
2.43.0


From d2ce11c41f2081f7fccb70557157aa05ad865750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:25 +0000
Subject: [PATCH 40/48] fix: accept exports compressed with gzip

---
 cmd/rq/main.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/rq/main.go b/cmd/rq/main.go
index f8e3beb..60e8f5e 100644
--- a/cmd/rq/main.go
+++ b/cmd/rq/main.go
@@ -32,6 +32,7 @@ import (
 	collector_metrics "go.opentelemetry.io/proto/otlp/collector/metrics/v1"
 	collector_trace "go.opentelemetry.io/proto/otlp/collector/trace/v1"
 	"google.golang.org/grpc"
+	_ "google.golang.org/grpc/encoding/gzip" // default of OTLP exporters
 )
 
 func main() {
-- 
2.43.0


From 5817abc1661b1c9a20e061e095e60babe828cf58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:46 +0000
Subject: [PATCH 41/48] fix: last exports of self telemetry finish before the
 database closes

---
 cmd/rq/main.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/rq/main.go b/cmd/rq/main.go
index 60e8f5e..0f57166 100644
--- a/cmd/rq/main.go
+++ b/cmd/rq/main.go
@@ -137,7 +137,8 @@ func run(ctx context.Context, cmd *cli.Command) (exit error) {
 		return err
 	}
 
-	defer providers.Shutdown(ctx)
+	// ctx is done by then and would not let it wait for the last exports
+	defer providers.Shutdown(context.Background())
 	store.MonitorSize(ctx, db)
 
 	go api.Start(ctx)
-- 
2.43.0


From 196baa2f3acedd849d7a0d3f741709557c558d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:46 +0000
Subject: [PATCH 42/48] fix: rq which cannot listen gives back what it opened

---
 cmd/rq/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/rq/main.go b/cmd/rq/main.go
index 0f57166..22ea60a 100644
--- a/cmd/rq/main.go
+++ b/cmd/rq/main.go
@@ -120,7 +120,7 @@ func run(ctx context.Context, cmd *cli.Command) (exit error) {
 	otelAddress := cmd.String("otlpListen")
 	otelGRPC, err := net.Listen("tcp", otelAddress)
 	if err != nil {
-		logger.Fail("failed listening otlp address", "addr", otelAddress, "err", err)
+		return fmt.Errorf("failed listening otlp address %w", err)
 	}
 	defer otelGRPC.Close()
 
-- 
2.43.0


From ff853b96dd66106e3766a56cbeafc32d610fb7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:10 +0000
Subject: [PATCH 43/48] fix: a script's range which begins before 1970 or ends
 after 2262 keeps the entries in it

---
 internal/js/rq.go |  2 +-
 internal/x/x.go   | 14 ++++++++++++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/internal/js/rq.go b/internal/js/rq.go
index ecb8c7a..4bd5452 100644
--- a/internal/js/rq.go
+++ b/internal/js/rq.go
@@ -89,7 +89,7 @@ func (r *JS) Scan(a *v1.Scan) (*v1.Data, error) {
 		defer vs.Release()
 
 		start, end := x.TimeBounds(r.GetNow, a)
-		vs.SetTimeRange(uint64(start.UnixNano()), uint64(end.UnixNano()))
+		vs.SetTimeRange(x.UnixNano(start), x.UnixNano(end))
 		vs.Compile(a.Filters...)
 		return vs.Visit(data), nil
 	}
diff --git a/internal/x/x.go b/internal/x/x.go
index 4d7b329..a616997 100644
--- a/internal/x/x.go
+++ b/internal/x/x.go
@@ -1,6 +1,7 @@
 package x
 
 import (
+	"math"
 	"time"
 
 	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
@@ -29,6 +30,19 @@ func UTC() time.Time {
 	return time.Now().UTC()
 }
 
+// UnixNano returns t as the time of an entry. What is before or after all times
+// an entry can have becomes the first or the last of them.
+func UnixNano(t time.Time) uint64 {
+	sec, nsec := t.Unix(), uint64(t.Nanosecond())
+	switch {
+	case sec < 0:
+		return 0
+	case sec >= int64(math.MaxUint64/uint64(time.Second)):
+		return math.MaxUint64
+	}
+	return uint64(sec)*uint64(time.Second) + nsec
+}
+
 // finds time boundary for the scan
 func TimeBounds(now func() time.Time, scan *v1.Scan) (start, end time.Time) {
 	var ts time.Time
-- 
2.43.0


From d88343cdd520b684d35d260591da9b23f21ab6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:25 +0000
Subject: [PATCH 44/48] fix: durations beyond 292 years and sizes beyond 16 EiB
 are rendered as they are

---
 internal/render/unit.go | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/internal/render/unit.go b/internal/render/unit.go
index d3e75d2..506b046 100644
--- a/internal/render/unit.go
+++ b/internal/render/unit.go
@@ -2,6 +2,7 @@ package render
 
 import (
 	"fmt"
+	"math"
 	"time"
 
 	"github.com/dustin/go-humanize"
@@ -10,16 +11,19 @@ import (
 func formatUnit(value float64, unit string) string {
 	switch unit {
 	case "h":
-		return time.Duration(value * float64(time.Hour)).String()
+		return formatDuration(value, time.Hour, unit)
 	case "m":
-		return time.Duration(value * float64(time.Minute)).String()
+		return formatDuration(value, time.Minute, unit)
 	case "s":
-		return time.Duration(value * float64(time.Second)).String()
+		return formatDuration(value, time.Second, unit)
 	case "ms":
-		return time.Duration(value * float64(time.Millisecond)).String()
+		return formatDuration(value, time.Millisecond, unit)
 	case "ns":
-		return time.Duration(value * float64(time.Nanosecond)).String()
+		return formatDuration(value, time.Nanosecond, unit)
 	case "By":
+		if !(math.Abs(value) < math.MaxUint64) {
+			return fmt.Sprint(value, " ", unit)
+		}
 		if value < 0 {
 			return "-" + humanize.IBytes(uint64(-value))
 		}
@@ -28,3 +32,13 @@ func formatUnit(value float64, unit string) string {
 		return fmt.Sprint(value)
 	}
 }
+
+// formatDuration shows value as a duration, or with its unit when there is no
+// such duration.
+func formatDuration(value float64, of time.Duration, unit string) string {
+	d := value * float64(of)
+	if !(math.Abs(d) < math.MaxInt64) {
+		return fmt.Sprint(value, " ", unit)
+	}
+	return time.Duration(d).String()
+}
-- 
2.43.0


From 0e40c462f4f233ee6787ca71f96b4a71be092e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:01 +0000
Subject: [PATCH 45/48] fix: tell the width of the zero region of exponential
 histograms

---
 internal/self/metrics/transform/metricdata.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/self/metrics/transform/metricdata.go b/internal/self/metrics/transform/metricdata.go
index b6d0b76..cec813d 100644
--- a/internal/self/metrics/transform/metricdata.go
+++ b/internal/self/metrics/transform/metricdata.go
@@ -229,6 +229,7 @@ func ExponentialHistogramDataPoints[N int64 | float64](dPts []metricdata.Exponen
 			Sum:               &sum,
 			Scale:             dPt.Scale,
 			ZeroCount:         dPt.ZeroCount,
+			ZeroThreshold:     dPt.ZeroThreshold,
 			Exemplars:         Exemplars(dPt.Exemplars),
 
 			Positive: ExponentialHistogramDataPointBuckets(dPt.PositiveBucket),
-- 
2.43.0


From 3b6ffd2801261254b5c50d3a230370e9a69a0d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:40 +0000
Subject: [PATCH 46/48] fix: tell the trace states of span links

---
 internal/self/trace/tracetransform/span.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/self/trace/tracetransform/span.go b/internal/self/trace/tracetransform/span.go
index ce69cfa..91ce823 100644
--- a/internal/self/trace/tracetransform/span.go
+++ b/internal/self/trace/tracetransform/span.go
@@ -149,6 +149,7 @@ func links(links []tracesdk.Link) []*tracepb.Span_Link {
 		sl = append(sl, &tracepb.Span_Link{
 			TraceId:                tid[:],
 			SpanId:                 sid[:],
+			TraceState:             otLink.SpanContext.TraceState().String(),
 			Attributes:             KeyValues(otLink.Attributes),
 			DroppedAttributesCount: uint32(otLink.DroppedAttributeCount),
 		})
-- 
2.43.0


From 5740d1664b536f1a188bd7c43af8924e6fff0a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:02:25 +0000
Subject: [PATCH 47/48] Revert "fix: tell the width of the zero region of
 exponential histograms"

This reverts commit 0e40c462f4f233ee6787ca71f96b4a71be092e38.
---
 internal/self/metrics/transform/metricdata.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/internal/self/metrics/transform/metricdata.go b/internal/self/metrics/transform/metricdata.go
index cec813d..b6d0b76 100644
--- a/internal/self/metrics/transform/metricdata.go
+++ b/internal/self/metrics/transform/metricdata.go
@@ -229,7 +229,6 @@ func ExponentialHistogramDataPoints[N int64 | float64](dPts []metricdata.Exponen
 			Sum:               &sum,
 			Scale:             dPt.Scale,
 			ZeroCount:         dPt.ZeroCount,
-			ZeroThreshold:     dPt.ZeroThreshold,
 			Exemplars:         Exemplars(dPt.Exemplars),
 
 			Positive: ExponentialHistogramDataPointBuckets(dPt.PositiveBucket),
-- 
2.43.0


From de5567be885da3b262f5e23523fa7d95cfa5cf50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:46:01 +0000
Subject: [PATCH 48/48] fix: count processed samples

---
 internal/service/service.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/service/service.go b/internal/service/service.go
index 51ac28a..1aa7c73 100644
--- a/internal/service/service.go
+++ b/internal/service/service.go
@@ -110,7 +110,9 @@ func (s *Service) flush() {
 	err := s.store.SaveSamples(context.Background(), ls)
 	if err != nil {
 		slog.Error("Failed to save samples", "err", err)
+		return
 	}
+	s.stats.processed.Add(context.Background(), int64(len(ls.Items)))
 }
 
 func (s *Service) Save(data *v1.Data) error {
-- 
2.43.0

