package main

import (
	"context"
	"fmt"
	"math"
	"sort"
	"strings"
	"sync"
	"time"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/self"
	"github.com/gernest/requiemdb/internal/self/metrics/transform"
	"github.com/gernest/requiemdb/internal/zverif/gen"
	"github.com/gernest/requiemdb/internal/zverif/kit"
	"github.com/gernest/requiemdb/internal/zverif/zv"
	"go.opentelemetry.io/otel/attribute"
	"go.opentelemetry.io/otel/metric"
	"go.opentelemetry.io/otel/sdk/instrumentation"
	sdkmetric "go.opentelemetry.io/otel/sdk/metric"
	"go.opentelemetry.io/otel/sdk/metric/metricdata"
	"go.opentelemetry.io/otel/sdk/resource"
	collector_metrics "go.opentelemetry.io/proto/otlp/collector/metrics/v1"
	commonv1 "go.opentelemetry.io/proto/otlp/common/v1"
	metricsv1 "go.opentelemetry.io/proto/otlp/metrics/v1"
	resourcev1 "go.opentelemetry.io/proto/otlp/resource/v1"
	"google.golang.org/protobuf/proto"
)

// at draws a time and what it is in OTLP.
func (g g) at() (time.Time, uint64) {
	switch g.r.Intn(6) {
	case 0:
		return time.Time{}, 0
	case 1:
		return time.Unix(0, 1), 1
	}
	n := g.r.Int63n(4e18)
	return time.Unix(0, n).In(time.FixedZone("x", g.r.Intn(40000)-20000)), uint64(n)
}

func exemplars[N int64 | float64](g g, val func() N) (o []metricdata.Exemplar[N], p []*metricsv1.Exemplar) {
	for i := g.few(3); i > 0; i-- {
		a, pa := g.kvs()
		t, pt := g.at()
		v := val()
		sid, tid := make([]byte, 8), make([]byte, 16)
		g.r.Read(sid)
		g.r.Read(tid)
		o = append(o, metricdata.Exemplar[N]{FilteredAttributes: a, Time: t, Value: v, SpanID: sid, TraceID: tid})
		e := &metricsv1.Exemplar{FilteredAttributes: pa, TimeUnixNano: pt, SpanId: sid, TraceId: tid}
		switch v := any(v).(type) {
		case int64:
			e.Value = &metricsv1.Exemplar_AsInt{AsInt: v}
		case float64:
			e.Value = &metricsv1.Exemplar_AsDouble{AsDouble: v}
		}
		p = append(p, e)
	}
	return
}

func points[N int64 | float64](g g, val func() N) (o []metricdata.DataPoint[N], p []*metricsv1.NumberDataPoint) {
	for i := g.few(4); i > 0; i-- {
		a, pa := g.set()
		t, pt := g.at()
		s, ps := g.at()
		v := val()
		ex, pex := exemplars(g, val)
		o = append(o, metricdata.DataPoint[N]{Attributes: a, StartTime: s, Time: t, Value: v, Exemplars: ex})
		n := &metricsv1.NumberDataPoint{Attributes: pa, StartTimeUnixNano: ps, TimeUnixNano: pt, Exemplars: pex}
		switch v := any(v).(type) {
		case int64:
			n.Value = &metricsv1.NumberDataPoint_AsInt{AsInt: v}
		case float64:
			n.Value = &metricsv1.NumberDataPoint_AsDouble{AsDouble: v}
		}
		p = append(p, n)
	}
	return
}

func opt[N int64 | float64](g g, val func() N) (metricdata.Extrema[N], *float64) {
	if g.r.Intn(2) == 0 {
		return metricdata.Extrema[N]{}, nil
	}
	v := val()
	f := float64(v)
	return metricdata.NewExtrema(v), &f
}

func (g g) counts() []uint64 {
	var o []uint64
	for i := g.few(5); i > 0; i-- {
		o = append(o, uint64(g.r.Intn(100)))
	}
	return o
}

func hist[N int64 | float64](g g, val func() N) (o []metricdata.HistogramDataPoint[N], p []*metricsv1.HistogramDataPoint) {
	for i := g.few(4); i > 0; i-- {
		a, pa := g.set()
		t, pt := g.at()
		s, ps := g.at()
		ex, pex := exemplars(g, val)
		sum := val()
		mn, pmn := opt(g, val)
		mx, pmx := opt(g, val)
		c := g.r.Uint64()
		bc := g.counts()
		var bounds []float64
		for j := g.few(4); j > 0; j-- {
			bounds = append(bounds, g.float())
		}
		f := float64(sum)
		o = append(o, metricdata.HistogramDataPoint[N]{Attributes: a, StartTime: s, Time: t, Count: c, Bounds: bounds, BucketCounts: bc, Min: mn, Max: mx, Sum: sum, Exemplars: ex})
		p = append(p, &metricsv1.HistogramDataPoint{Attributes: pa, StartTimeUnixNano: ps, TimeUnixNano: pt, Count: c, ExplicitBounds: bounds, BucketCounts: bc, Min: pmn, Max: pmx, Sum: &f, Exemplars: pex})
	}
	return
}

func ehist[N int64 | float64](g g, val func() N) (o []metricdata.ExponentialHistogramDataPoint[N], p []*metricsv1.ExponentialHistogramDataPoint) {
	for i := g.few(4); i > 0; i-- {
		a, pa := g.set()
		t, pt := g.at()
		s, ps := g.at()
		ex, pex := exemplars(g, val)
		sum := val()
		mn, pmn := opt(g, val)
		mx, pmx := opt(g, val)
		f := float64(sum)
		d := metricdata.ExponentialHistogramDataPoint[N]{Attributes: a, StartTime: s, Time: t, Count: g.r.Uint64(), Min: mn, Max: mx, Sum: sum, Exemplars: ex,
			Scale: int32(g.r.Intn(30) - 10), ZeroCount: uint64(g.r.Intn(9)), ZeroThreshold: g.float() + 0,
			PositiveBucket: metricdata.ExponentialBucket{Offset: int32(g.r.Intn(100) - 50), Counts: g.counts()},
			NegativeBucket: metricdata.ExponentialBucket{Offset: int32(g.r.Intn(100) - 50), Counts: g.counts()}}
		o = append(o, d)
		p = append(p, &metricsv1.ExponentialHistogramDataPoint{Attributes: pa, StartTimeUnixNano: ps, TimeUnixNano: pt, Count: d.Count, Min: pmn, Max: pmx, Sum: &f, Exemplars: pex,
			Scale: d.Scale, ZeroCount: d.ZeroCount, ZeroThreshold: d.ZeroThreshold,
			Positive: &metricsv1.ExponentialHistogramDataPoint_Buckets{Offset: d.PositiveBucket.Offset, BucketCounts: d.PositiveBucket.Counts},
			Negative: &metricsv1.ExponentialHistogramDataPoint_Buckets{Offset: d.NegativeBucket.Offset, BucketCounts: d.NegativeBucket.Counts}})
	}
	return
}

type unknownAggregation struct{ metricdata.Aggregation }

// metric draws a metric and what it is in OTLP, nil when it can't be told.
func (g g) metric() (metricdata.Metrics, *metricsv1.Metric, string) {
	m := metricdata.Metrics{Name: g.word("m"), Description: g.word("d"), Unit: g.word("u")}
	p := &metricsv1.Metric{Name: m.Name, Description: m.Description, Unit: m.Unit}
	ts := []metricdata.Temporality{metricdata.CumulativeTemporality, metricdata.DeltaTemporality}
	ps := []metricsv1.AggregationTemporality{metricsv1.AggregationTemporality_AGGREGATION_TEMPORALITY_CUMULATIVE, metricsv1.AggregationTemporality_AGGREGATION_TEMPORALITY_DELTA}
	k := g.r.Intn(2)
	t, pt := ts[k], ps[k]
	bad := g.r.Intn(12) == 0
	if bad {
		t = metricdata.Temporality(g.r.Intn(2) * 9)
	}
	kind := g.r.Intn(10)
	why := ""
	if bad && kind >= 2 && kind <= 7 {
		why = "unknown temporality"
	}
	switch kind {
	case 0:
		d, pd := points(g, g.num)
		m.Data, p.Data = metricdata.Gauge[int64]{DataPoints: d}, &metricsv1.Metric_Gauge{Gauge: &metricsv1.Gauge{DataPoints: pd}}
	case 1:
		d, pd := points(g, g.float)
		m.Data, p.Data = metricdata.Gauge[float64]{DataPoints: d}, &metricsv1.Metric_Gauge{Gauge: &metricsv1.Gauge{DataPoints: pd}}
	case 2:
		d, pd := points(g, g.num)
		mono := g.r.Intn(2) == 0
		m.Data, p.Data = metricdata.Sum[int64]{DataPoints: d, Temporality: t, IsMonotonic: mono}, &metricsv1.Metric_Sum{Sum: &metricsv1.Sum{DataPoints: pd, AggregationTemporality: pt, IsMonotonic: mono}}
	case 3:
		d, pd := points(g, g.float)
		mono := g.r.Intn(2) == 0
		m.Data, p.Data = metricdata.Sum[float64]{DataPoints: d, Temporality: t, IsMonotonic: mono}, &metricsv1.Metric_Sum{Sum: &metricsv1.Sum{DataPoints: pd, AggregationTemporality: pt, IsMonotonic: mono}}
	case 4:
		d, pd := hist(g, g.num)
		m.Data, p.Data = metricdata.Histogram[int64]{DataPoints: d, Temporality: t}, &metricsv1.Metric_Histogram{Histogram: &metricsv1.Histogram{DataPoints: pd, AggregationTemporality: pt}}
	case 5:
		d, pd := hist(g, g.float)
		m.Data, p.Data = metricdata.Histogram[float64]{DataPoints: d, Temporality: t}, &metricsv1.Metric_Histogram{Histogram: &metricsv1.Histogram{DataPoints: pd, AggregationTemporality: pt}}
	case 6:
		d, pd := ehist(g, g.num)
		m.Data, p.Data = metricdata.ExponentialHistogram[int64]{DataPoints: d, Temporality: t}, &metricsv1.Metric_ExponentialHistogram{ExponentialHistogram: &metricsv1.ExponentialHistogram{DataPoints: pd, AggregationTemporality: pt}}
	case 7:
		d, pd := ehist(g, g.float)
		m.Data, p.Data = metricdata.ExponentialHistogram[float64]{DataPoints: d, Temporality: t}, &metricsv1.Metric_ExponentialHistogram{ExponentialHistogram: &metricsv1.ExponentialHistogram{DataPoints: pd, AggregationTemporality: pt}}
	default:
		if bad {
			why = "unknown aggregation"
			if g.r.Intn(2) == 0 {
				m.Data = unknownAggregation{}
			}
			break
		}
		var d []metricdata.SummaryDataPoint
		var pd []*metricsv1.SummaryDataPoint
		for i := g.few(4); i > 0; i-- {
			a, pa := g.set()
			t, pt := g.at()
			s, ps := g.at()
			var q []metricdata.QuantileValue
			var pq []*metricsv1.SummaryDataPoint_ValueAtQuantile
			for j := g.few(4); j > 0; j-- {
				x, y := g.float()+0, g.float()+0 // -0 is 0 here
				q = append(q, metricdata.QuantileValue{Quantile: x, Value: y})
				pq = append(pq, &metricsv1.SummaryDataPoint_ValueAtQuantile{Quantile: x, Value: y})
			}
			c, sum := g.r.Uint64(), g.float()+0
			d = append(d, metricdata.SummaryDataPoint{Attributes: a, StartTime: s, Time: t, Count: c, Sum: sum, QuantileValues: q})
			pd = append(pd, &metricsv1.SummaryDataPoint{Attributes: pa, StartTimeUnixNano: ps, TimeUnixNano: pt, Count: c, Sum: sum, QuantileValues: pq})
		}
		m.Data, p.Data = metricdata.Summary{DataPoints: d}, &metricsv1.Metric_Summary{Summary: &metricsv1.Summary{DataPoints: pd}}
	}
	return m, p, why
}

// sink keeps what it is given, as the service does until it saves.
type sink struct {
	mu   sync.Mutex
	got  []*collector_metrics.ExportMetricsServiceRequest
	sums []string
	fail bool
	collector_metrics.UnimplementedMetricsServiceServer
}

func (s *sink) Export(_ context.Context, r *collector_metrics.ExportMetricsServiceRequest) (*collector_metrics.ExportMetricsServiceResponse, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.fail {
		return nil, fmt.Errorf("full")
	}
	s.got, s.sums = append(s.got, r), append(s.sums, string(gen.Bytes(r)))
	return &collector_metrics.ExportMetricsServiceResponse{}, nil
}

func zeros(rm *metricsv1.ResourceMetrics, f func(*metricsv1.ExponentialHistogramDataPoint)) {
	for _, s := range rm.GetScopeMetrics() {
		for _, m := range s.Metrics {
			for _, p := range m.GetExponentialHistogram().GetDataPoints() {
				f(p)
			}
		}
	}
}

// untold tells that no exponential histogram has the width of its zero region.
func untold(rm *metricsv1.ResourceMetrics) bool {
	n := 0
	zeros(rm, func(p *metricsv1.ExponentialHistogramDataPoint) {
		if p.ZeroThreshold != 0 {
			n++
		}
	})
	return n == 0
}

func clearZero(rm *metricsv1.ResourceMetrics) {
	zeros(rm, func(p *metricsv1.ExponentialHistogramDataPoint) { p.ZeroThreshold = 0 })
}

// zeroRegion converts exponential histograms with zero regions wider than 0.
func zeroRegion(t *zv.T) {
	g := g{r: t.Rand}
	d, pd := ehist(g, g.float)
	n := 0
	for i := range d {
		d[i].ZeroThreshold = 1 / float64(2+t.Rand.Intn(1000))
		pd[i].ZeroThreshold = d[i].ZeroThreshold
		n++
	}
	want := &metricsv1.ResourceMetrics{Resource: &resourcev1.Resource{}, ScopeMetrics: []*metricsv1.ScopeMetrics{{
		Scope: &commonv1.InstrumentationScope{Name: "z"}, Metrics: []*metricsv1.Metric{{Name: "z", Data: &metricsv1.Metric_ExponentialHistogram{
			ExponentialHistogram: &metricsv1.ExponentialHistogram{DataPoints: pd, AggregationTemporality: metricsv1.AggregationTemporality_AGGREGATION_TEMPORALITY_DELTA}}}}}}}
	got, err := transform.ResourceMetrics(&metricdata.ResourceMetrics{Resource: resource.Empty(), ScopeMetrics: []metricdata.ScopeMetrics{{
		Scope: instrumentation.Scope{Name: "z"}, Metrics: []metricdata.Metrics{{Name: "z", Data: metricdata.ExponentialHistogram[float64]{DataPoints: d, Temporality: metricdata.DeltaTemporality}}}}}})
	t.Must(err)
	t.Eval(1)
	t.Count("zero_regions", n)
	lost := n > 0 && untold(got)
	if lost {
		clearZero(want)
	}
	if !proto.Equal(want, got) {
		t.Fatal("converted", "metrics of the server changed:\n%s", kit.Diff(want, got))
	}
	if lost {
		t.Fatal("zero-region-not-told", "zero regions up to %g wide are told as 0", d[0].ZeroThreshold)
	}
}

func convert(t *zv.T) {
	g := g{r: t.Rand}
	a, pa := g.set()
	schema := g.word("schema")
	rm := &metricdata.ResourceMetrics{Resource: resource.NewWithAttributes(schema, a.ToSlice()...)}
	var want *metricsv1.ResourceMetrics = &metricsv1.ResourceMetrics{Resource: &resourcev1.Resource{Attributes: pa}, SchemaUrl: schema}
	var bad []string
	total := 0
	for i := g.few(4); i > 0; i-- {
		sc := instrumentation.Scope{Name: g.word("n"), Version: g.word("v"), SchemaURL: g.word("s")}
		sm := metricdata.ScopeMetrics{Scope: sc}
		psm := &metricsv1.ScopeMetrics{Scope: &commonv1.InstrumentationScope{Name: sc.Name, Version: sc.Version}, SchemaUrl: sc.SchemaURL}
		for j := g.few(5); j > 0; j-- {
			m, p, why := g.metric()
			sm.Metrics = append(sm.Metrics, m)
			total++
			if why != "" {
				bad = append(bad, fmt.Sprintf("%q", m.Name)+"|"+why)
				continue
			}
			psm.Metrics = append(psm.Metrics, p)
			t.Count(fmt.Sprintf("metrics_%T", p.Data), 1)
		}
		rm.ScopeMetrics, want.ScopeMetrics = append(rm.ScopeMetrics, sm), append(want.ScopeMetrics, psm)
	}
	got, err := transform.ResourceMetrics(rm)
	t.Eval(1)
	if untold(got) {
		// zeroRegion tells
		clearZero(want)
	}
	if !proto.Equal(want, got) {
		t.Fatal("converted", "metrics of the server changed:\n%s", kit.Diff(want, got))
	}
	if (err != nil) != (len(bad) > 0) {
		t.Fatal("report", "%d invalid metrics (%v) and error %v", len(bad), bad, err)
	}
	for _, b := range bad {
		n, why, _ := strings.Cut(b, "|")
		if !strings.Contains(err.Error(), n) || !strings.Contains(err.Error(), why) {
			t.Fatal("report", "the error %q does not tell of metric %s with %s", err, n, why)
		}
	}
	t.Count("invalid_metrics", len(bad))
	if len(bad) == 0 {
		// the same through the exporter
		s := &sink{}
		if err := (&self.Metrics{Collector: s}).Export(context.Background(), rm); err != nil {
			t.Fatal("export", "exporting valid metrics: %v", err)
		}
		t.Eval(1)
		if len(s.got) != 1 || len(s.got[0].ResourceMetrics) != 1 || !proto.Equal(s.got[0].ResourceMetrics[0], want) {
			t.Fatal("export", "the collector got %v", s.got)
		}
		s.fail = true
		if err := (&self.Metrics{Collector: s}).Export(context.Background(), rm); err == nil {
			t.Fatal("refused", "the collector refused and the export succeeded")
		}
	}
	if total > 0 {
		t.Distinct(string(gen.Bytes(want)))
	}
	t.Sample(map[string]any{"metrics": total, "invalid": len(bad)})
}

// series is what was measured for one instrument and set of attributes.
type series struct {
	vals []float64
	last float64
}

// measure runs the sdk with the exporter of the server and compares every
// document the collector got, at the end, with what was measured.
func measure(t *zv.T) {
	r := t.Rand
	s := &sink{}
	exp := &self.Metrics{Collector: s}
	view := sdkmetric.NewView(sdkmetric.Instrument{Name: "eh*"}, sdkmetric.Stream{
		Aggregation: sdkmetric.AggregationBase2ExponentialHistogram{MaxSize: int32(4 + r.Intn(160)), MaxScale: 20}})
	reader := sdkmetric.NewPeriodicReader(exp, sdkmetric.WithInterval(time.Hour))
	prov := sdkmetric.NewMeterProvider(sdkmetric.WithReader(reader), sdkmetric.WithView(view), sdkmetric.WithResource(self.Resource))
	meter := prov.Meter("m", metric.WithInstrumentationVersion("1.2"), metric.WithSchemaURL("http://s"))
	ctx := context.Background()
	ic, err := meter.Int64Counter("ic", metric.WithUnit("By"), metric.WithDescription("desc"))
	t.Must(err)
	fu, err := meter.Float64UpDownCounter("fu")
	t.Must(err)
	ih, err := meter.Int64Histogram("ih", metric.WithExplicitBucketBoundaries(0, 10, 100))
	t.Must(err)
	fh, err := meter.Float64Histogram("fh")
	t.Must(err)
	eh, err := meter.Float64Histogram("eh")
	t.Must(err)
	var mu sync.Mutex
	model := map[string]*series{}
	add := func(n string, k int, v float64) {
		mu.Lock()
		defer mu.Unlock()
		key := fmt.Sprint(n, "/", k)
		if model[key] == nil {
			model[key] = &series{}
		}
		model[key].vals = append(model[key].vals, v)
		model[key].last = v
	}
	gval := 0.0
	_, err = meter.Float64ObservableGauge("og", metric.WithFloat64Callback(func(_ context.Context, o metric.Float64Observer) error {
		mu.Lock()
		v := gval
		mu.Unlock()
		o.Observe(v, metric.WithAttributes(attribute.Int("k", 0)))
		return nil
	}))
	t.Must(err)
	rounds := 2 + r.Intn(5)
	type snap map[string]series
	var snaps []snap
	keys := 1 + r.Intn(3)
	for round := 0; round < rounds; round++ {
		var wg sync.WaitGroup
		for w := 0; w < 4; w++ {
			seed := r.Int63()
			n := r.Intn(60)
			wg.Add(1)
			go func() {
				defer wg.Done()
				rr := newRand(seed)
				for i := 0; i < n; i++ {
					k := rr.Intn(keys)
					at := metric.WithAttributes(attribute.Int("k", k))
					switch rr.Intn(5) {
					case 0:
						v := rr.Int63n(1000)
						add("ic", k, float64(v))
						ic.Add(ctx, v, at)
					case 1:
						v := float64(rr.Intn(1000)-500) / 4
						add("fu", k, v)
						fu.Add(ctx, v, at)
					case 2:
						v := rr.Int63n(300) - 50
						add("ih", k, float64(v))
						ih.Record(ctx, v, at)
					case 3:
						v := float64(rr.Intn(40000)-100) / 4
						add("fh", k, v)
						fh.Record(ctx, v, at)
					default:
						v := float64(rr.Intn(1<<20)-1000) / 16
						add("eh", k, v)
						eh.Record(ctx, v, at)
					}
				}
			}()
		}
		wg.Wait()
		mu.Lock()
		gval = float64(round) + 0.25
		sn := snap{"og/0": {vals: []float64{gval}, last: gval}}
		for k, v := range model {
			sn[k] = series{vals: append([]float64{}, v.vals...), last: v.last}
		}
		mu.Unlock()
		snaps = append(snaps, sn)
		if round == rounds-1 && r.Intn(2) == 0 {
			t.Must(prov.Shutdown(ctx))
			t.Count("collections_by_shutdown", 1)
		} else {
			t.Must(prov.ForceFlush(ctx))
		}
		t.Count("collections", 1)
	}
	prov.Shutdown(ctx)
	if len(s.got) < len(snaps) {
		t.Fatal("collections", "the collector got %d documents of %d collections", len(s.got), len(snaps))
	}
	// Everything is looked at only now, as the server saves after a while.
	for i, sn := range snaps {
		t.Eval(1)
		if string(gen.Bytes(s.got[i])) != s.sums[i] {
			t.Fatal("changed-later", "the document of collection %d of %d changed after it was handed over", i, rounds)
		}
		check(t, i, s.got[i], sn)
		t.Distinct(s.sums[i])
	}
	t.Sample(map[string]any{"collections": rounds, "series": len(model)})
}

func check(t *zv.T, round int, req *collector_metrics.ExportMetricsServiceRequest, sn map[string]series) {
	d := &v1.Data{Data: &v1.Data_Metrics{Metrics: &metricsv1.MetricsData{ResourceMetrics: req.ResourceMetrics}}}
	seen := map[string]bool{}
	for _, rm := range req.ResourceMetrics {
		if rm.SchemaUrl != self.Resource.SchemaURL() {
			t.Fatal("resource", "schema of resource is %q", rm.SchemaUrl)
		}
		for _, sm := range rm.ScopeMetrics {
			if sm.Scope.GetName() != "m" || sm.Scope.GetVersion() != "1.2" || sm.SchemaUrl != "http://s" {
				t.Fatal("scope", "scope is %v with schema %q", sm.Scope, sm.SchemaUrl)
			}
		}
	}
	for _, l := range gen.Leaves(d) {
		if len(l.Attrs) != 1 || l.Attrs[0].Key != "k" {
			t.Fatal("attributes", "collection %d: point of %s has attributes %v", round, l.Name, l.Attrs)
		}
		k := fmt.Sprint(l.Name, "/", l.Attrs[0].Value.GetIntValue())
		w, ok := sn[k]
		if !ok || seen[k] {
			t.Fatal("series", "collection %d: point of %s, which was not measured or was told already", round, k)
		}
		seen[k] = true
		sum, lo, hi := 0.0, math.Inf(1), math.Inf(-1)
		for _, v := range w.vals {
			sum += v
			lo, hi = min(lo, v), max(hi, v)
		}
		desc := fmt.Sprintf("collection %d, series %s of %d measurements: %v", round, k, len(w.vals), l.MetricMsg)
		cum := metricsv1.AggregationTemporality_AGGREGATION_TEMPORALITY_CUMULATIVE
		t.Eval(1)
		switch m := l.MetricMsg.Data.(type) {
		case *metricsv1.Metric_Gauge:
			for _, p := range m.Gauge.DataPoints {
				if p.GetAsDouble() != w.last {
					t.Fatal("gauge", "last value is not %v: %s", w.last, desc)
				}
			}
		case *metricsv1.Metric_Sum:
			if m.Sum.AggregationTemporality != cum || m.Sum.IsMonotonic != (l.Name == "ic") {
				t.Fatal("sum", "temporality or monotony wrong: %s", desc)
			}
			for _, p := range m.Sum.DataPoints {
				if sameKey(p.Attributes, l.Attrs) && float64(p.GetAsInt())+p.GetAsDouble() != sum {
					t.Fatal("sum", "sum is not %v: %s", sum, desc)
				}
			}
		case *metricsv1.Metric_Histogram:
			for _, p := range m.Histogram.DataPoints {
				if !sameKey(p.Attributes, l.Attrs) {
					continue
				}
				c := make([]uint64, len(p.ExplicitBounds)+1)
				for _, v := range w.vals {
					c[sort.SearchFloat64s(p.ExplicitBounds, v)]++
				}
				if m.Histogram.AggregationTemporality != cum || p.Count != uint64(len(w.vals)) || p.GetSum() != sum || p.GetMin() != lo || p.GetMax() != hi || fmt.Sprint(c) != fmt.Sprint(p.BucketCounts) {
					t.Fatal("histogram", "want %d measurements, sum %v, min %v, max %v, buckets %v: %s", len(w.vals), sum, lo, hi, c, desc)
				}
			}
		case *metricsv1.Metric_ExponentialHistogram:
			for _, p := range m.ExponentialHistogram.DataPoints {
				if !sameKey(p.Attributes, l.Attrs) {
					continue
				}
				if m.ExponentialHistogram.AggregationTemporality != cum || p.Count != uint64(len(w.vals)) || p.GetSum() != sum || p.GetMin() != lo || p.GetMax() != hi {
					t.Fatal("exponential", "want %d measurements, sum %v, min %v, max %v: %s", len(w.vals), sum, lo, hi, desc)
				}
				var pos, neg []float64
				zero := uint64(0)
				for _, v := range w.vals {
					switch {
					case v > 0:
						pos = append(pos, v)
					case v < 0:
						neg = append(neg, -v)
					default:
						zero++
					}
				}
				if zero != p.ZeroCount {
					t.Fatal("exponential", "want %d zeroes: %s", zero, desc)
				}
				buckets(t, "positive of "+desc, p.Scale, p.Positive, pos)
				buckets(t, "negative of "+desc, p.Scale, p.Negative, neg)
				t.Count("exponential_points", 1)
			}
		}
	}
	for k := range sn {
		if !seen[k] {
			t.Fatal("series", "collection %d: no point of series %s", round, k)
		}
	}
}

// buckets compares cumulated counts: for every bucket border the values
// certainly below and those possibly below it bound the count.
func buckets(t *zv.T, desc string, scale int32, b *metricsv1.ExponentialHistogramDataPoint_Buckets, vals []float64) {
	n := uint64(0)
	for i, c := range b.GetBucketCounts() {
		n += c
		border := math.Exp2(math.Ldexp(float64(b.Offset)+float64(i)+1, -int(scale)))
		lo, hi := uint64(0), uint64(0)
		for _, v := range vals {
			if v <= border*(1-1e-9) {
				lo++
			}
			if v <= border*(1+1e-9) {
				hi++
			}
		}
		if n < lo || n > hi {
			t.Fatal("buckets", "%d values up to %v, want %d to %d: %s", n, border, lo, hi, desc)
		}
	}
	if n != uint64(len(vals)) {
		t.Fatal("buckets", "%d values in buckets of %d: %s", n, len(vals), desc)
	}
}

func sameKey(a, b []*commonv1.KeyValue) bool {
	return len(a) == 1 && len(b) == 1 && a[0].Value.GetIntValue() == b[0].Value.GetIntValue()
}

func propC25() *zv.Prop {
	return &zv.Prop{
		ID:     "C25",
		Rule:   "an execution either converts a generated metrics document of the sdk (all kinds, unknown times, exemplars, invalid temporality or aggregation) and compares it with the OTLP document generated beside it, or measures with instruments from 4 goroutines over 2-6 collections through the server's exporter into a collector that keeps what it is given, and at the end compares every kept document with the measurements. Documents count as distinct by content",
		Assume: []string{"attribute values of the sdk's types", "one resource per process"},
		Families: []zv.Family{
			{Name: "convert", Quick: 24000, Thorough: 400000, Run: convert},
			{Name: "zeroregion", Quick: 200, Thorough: 2000, Run: zeroRegion},
			{Name: "measure", Quick: 4000, Thorough: 60000, Run: measure},
		},
	}
}
