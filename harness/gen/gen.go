// Package gen makes OTLP telemetry from a random source.
package gen

import (
	"fmt"
	"math"
	"math/rand"
	"strings"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	commonv1 "go.opentelemetry.io/proto/otlp/common/v1"
	logsv1 "go.opentelemetry.io/proto/otlp/logs/v1"
	metricsv1 "go.opentelemetry.io/proto/otlp/metrics/v1"
	resourcev1 "go.opentelemetry.io/proto/otlp/resource/v1"
	tracev1 "go.opentelemetry.io/proto/otlp/trace/v1"
)

// Opt shapes what is generated.
type Opt struct {
	// Vocab is how many different names/keys/values are drawn (small: collisions).
	Vocab int
	// Wild adds the unusual but legal: missing values, empty messages, nested
	// and non-string attribute values, separators inside names, extreme numbers.
	Wild bool
	// Max elements per level.
	Max int
	// TimeLo and TimeHi bound the timestamps of data points/records/spans (ns).
	TimeLo, TimeHi uint64
	// ZeroTime is how many timestamps of ten are unknown (zero).
	ZeroTime int
	// AtLeastOne forces at least one element per level.
	AtLeastOne bool
	// Long makes one of Long names, keys and texts long, up to 70 KB (0: none).
	Long int
	// Big is how many elements beyond Max a document may get, put anywhere.
	Big int
}

// Large draws what makes documents large: many elements, long texts or both.
func (o Opt) Large(r *rand.Rand, most int) Opt {
	k := r.Intn(3)
	if k != 0 {
		o.Big = most/10 + r.Intn(most)
	}
	if k != 1 {
		o.Long = 10 + r.Intn(40)
	}
	return o
}

type G struct {
	R *rand.Rand
	O Opt
	n int
	// real is where words begin in the lists of real ones, 0: made up ones.
	real int
}

func New(r *rand.Rand, o Opt) *G {
	if o.Vocab == 0 {
		o.Vocab = 4
	}
	if o.Max == 0 {
		o.Max = 3
	}
	g := &G{R: r, O: o}
	if r.Intn(3) == 0 {
		g.real = 1 + r.Intn(1000)
	}
	return g
}

func (g *G) Num() int {
	if n := g.many(6); n > 0 {
		return n
	}
	if g.O.AtLeastOne {
		return 1 + g.R.Intn(g.O.Max)
	}
	return g.R.Intn(g.O.Max + 1)
}

// many takes elements of the document's excess, once in a while.
func (g *G) many(in int) int {
	if g.O.Big <= 0 || g.R.Intn(in) != 0 {
		return 0
	}
	n := 1 + g.R.Intn(g.O.Big)
	g.O.Big -= n
	return n
}

// long makes a long text of a word. Long texts of different words differ only
// at the end, only at the beginning or in the middle.
func (g *G) long(w string) string {
	n := 200 << g.R.Intn(9)
	if n > 40000 {
		n = []int{40000, 65535, 65536, 70000}[g.R.Intn(4)]
	}
	switch fill := strings.Repeat("long ", n/5); g.R.Intn(3) {
	case 0:
		return w + fill
	case 1:
		return fill + w
	default:
		return fill[:n/2] + w + fill[n/2:]
	}
}

var odd = []string{"a=b", "=", "k=", "=v", "1:2:x", "é\u0301", "日本", "x y", "\x00z", "a:b:c", "%d%s", "\"q\"", "new\nline"}

func (g *G) Word(p string) string {
	if g.O.Wild && g.R.Intn(6) == 0 {
		return odd[g.R.Intn(len(odd))]
	}
	w := ""
	if i, l := g.R.Intn(g.O.Vocab), real[p]; g.O.Vocab < len(l) && g.real > 0 {
		w = l[(g.real+i)%len(l)]
	} else {
		w = fmt.Sprintf("%s%d", p, i)
	}
	if g.O.Long > 0 && g.R.Intn(g.O.Long) == 0 {
		return g.long(w)
	}
	return w
}

func (g *G) maybe(p string) string {
	if g.R.Intn(3) == 0 {
		return ""
	}
	return g.Word(p)
}

func (g *G) Time() uint64 {
	if g.O.ZeroTime > 0 && g.R.Intn(10) < g.O.ZeroTime {
		return 0
	}
	if g.O.TimeHi <= g.O.TimeLo {
		return g.O.TimeLo
	}
	return g.O.TimeLo + uint64(g.R.Int63n(int64(g.O.TimeHi-g.O.TimeLo)))
}

func Str(s string) *commonv1.AnyValue {
	return &commonv1.AnyValue{Value: &commonv1.AnyValue_StringValue{StringValue: s}}
}

func KV(k, v string) *commonv1.KeyValue { return &commonv1.KeyValue{Key: k, Value: Str(v)} }

func (g *G) Float() float64 {
	switch g.R.Intn(8) {
	case 0:
		return 0
	case 1:
		if g.O.Wild {
			return []float64{math.Inf(1), math.Inf(-1), math.MaxFloat64, math.SmallestNonzeroFloat64, math.NaN()}[g.R.Intn(5)]
		}
		return 1
	default:
		return math.Round(g.R.NormFloat64()*1e6)/1e3 + 0 // no -0: messages and their copies differ in it
	}
}

func (g *G) Int() int64 {
	switch g.R.Intn(6) {
	case 0:
		return 0
	case 1:
		return []int64{math.MaxInt64, math.MinInt64, -1, 1 << 53, 1<<53 + 1}[g.R.Intn(5)]
	default:
		return g.R.Int63n(1e6) - 5e5
	}
}

func (g *G) Any(depth int) *commonv1.AnyValue {
	if !g.O.Wild {
		if g.R.Intn(5) > 0 {
			return Str(g.Word("v"))
		}
	}
	n := 9
	if depth <= 0 {
		n = 6
	}
	switch g.R.Intn(n) {
	case 0, 1:
		return Str(g.Word("v"))
	case 2:
		return &commonv1.AnyValue{Value: &commonv1.AnyValue_BoolValue{BoolValue: g.R.Intn(2) == 0}}
	case 3:
		return &commonv1.AnyValue{Value: &commonv1.AnyValue_IntValue{IntValue: g.Int()}}
	case 4:
		return &commonv1.AnyValue{Value: &commonv1.AnyValue_DoubleValue{DoubleValue: g.Float()}}
	case 5:
		b := make([]byte, g.R.Intn(5))
		g.R.Read(b)
		return &commonv1.AnyValue{Value: &commonv1.AnyValue_BytesValue{BytesValue: b}}
	case 6:
		a := &commonv1.ArrayValue{}
		for i := g.R.Intn(4); i > 0; i-- {
			a.Values = append(a.Values, g.Any(depth-1))
		}
		return &commonv1.AnyValue{Value: &commonv1.AnyValue_ArrayValue{ArrayValue: a}}
	case 7:
		return &commonv1.AnyValue{Value: &commonv1.AnyValue_KvlistValue{KvlistValue: &commonv1.KeyValueList{Values: g.attrs(depth - 1)}}}
	default:
		return &commonv1.AnyValue{}
	}
}

func (g *G) attrs(depth int) []*commonv1.KeyValue {
	n := g.R.Intn(g.O.Max + 1)
	most := g.many(60)
	n += most
	if n == 0 {
		return nil
	}
	o := make([]*commonv1.KeyValue, 0, n)
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		k := g.Word("k")
		if most > 0 {
			k = fmt.Sprintf("k%d", g.R.Intn(4*most))
		}
		if seen[k] {
			continue // attribute keys are unique
		}
		seen[k] = true
		kv := &commonv1.KeyValue{Key: k, Value: g.Any(depth)}
		if g.O.Wild && g.R.Intn(12) == 0 {
			kv.Value = nil
		}
		o = append(o, kv)
	}
	return o
}

func (g *G) Attrs() []*commonv1.KeyValue { return g.attrs(2) }

func (g *G) Resource() *resourcev1.Resource {
	if g.R.Intn(5) == 0 {
		return nil
	}
	r := &resourcev1.Resource{Attributes: g.Attrs()}
	if g.R.Intn(3) == 0 {
		r.DroppedAttributesCount = uint32(g.R.Intn(4))
	}
	return r
}

func (g *G) Scope() *commonv1.InstrumentationScope {
	if g.R.Intn(5) == 0 {
		return nil
	}
	s := &commonv1.InstrumentationScope{Name: g.maybe("scope"), Version: g.maybe("ver"), Attributes: g.Attrs()}
	if g.R.Intn(4) == 0 {
		s.DroppedAttributesCount = uint32(g.R.Intn(4))
	}
	return s
}

func (g *G) bytes(n int) []byte {
	if g.R.Intn(6) == 0 {
		return nil
	}
	b := make([]byte, n)
	// few different ids, so that filters hit
	x := byte(g.R.Intn(g.O.Vocab))
	for i := range b {
		b[i] = x + byte(i)*17
	}
	return b
}

func (g *G) exemplars() []*metricsv1.Exemplar {
	var o []*metricsv1.Exemplar
	for i := g.R.Intn(3); i > 0; i-- {
		e := &metricsv1.Exemplar{FilteredAttributes: g.Attrs(), TimeUnixNano: g.Time(), SpanId: g.bytes(8), TraceId: g.bytes(16)}
		if g.R.Intn(2) == 0 {
			e.Value = &metricsv1.Exemplar_AsInt{AsInt: g.Int()}
		} else {
			e.Value = &metricsv1.Exemplar_AsDouble{AsDouble: g.Float()}
		}
		o = append(o, e)
	}
	return o
}

// uniq makes every point distinguishable: conservation checks then identify
// which point was lost, duplicated or altered.
func (g *G) uniq() float64 { g.n++; return float64(g.n) + 0.5 }

func (g *G) numPoint() *metricsv1.NumberDataPoint {
	p := &metricsv1.NumberDataPoint{
		Attributes: g.Attrs(), StartTimeUnixNano: uint64(g.R.Int63n(1e18)), TimeUnixNano: g.Time(),
		Exemplars: g.exemplars(), Flags: uint32(g.R.Intn(2)),
	}
	switch g.R.Intn(5) {
	case 0, 1:
		p.Value = &metricsv1.NumberDataPoint_AsInt{AsInt: g.Int()}
	case 2, 3:
		p.Value = &metricsv1.NumberDataPoint_AsDouble{AsDouble: g.Float()}
	default:
		if !g.O.Wild {
			p.Value = &metricsv1.NumberDataPoint_AsDouble{AsDouble: g.uniq()}
		}
	}
	return p
}

func (g *G) optF() *float64 {
	if g.R.Intn(2) == 0 {
		return nil
	}
	f := g.Float()
	return &f
}

func (g *G) u64s() []uint64 {
	var o []uint64
	for i := g.R.Intn(4); i > 0; i-- {
		o = append(o, uint64(g.R.Intn(5)))
	}
	return o
}

func (g *G) f64s() []float64 {
	var o []float64
	for i := g.R.Intn(4); i > 0; i-- {
		o = append(o, g.Float())
	}
	return o
}

func (g *G) buckets() *metricsv1.ExponentialHistogramDataPoint_Buckets {
	if g.R.Intn(3) == 0 {
		return nil
	}
	return &metricsv1.ExponentialHistogramDataPoint_Buckets{Offset: int32(g.R.Intn(9) - 4), BucketCounts: g.u64s()}
}

// Temporality and monotonicity vary.
func (g *G) temp() metricsv1.AggregationTemporality {
	return metricsv1.AggregationTemporality(g.R.Intn(3))
}

func (g *G) Metric() *metricsv1.Metric {
	m := &metricsv1.Metric{Name: g.Word("metric"), Description: g.maybe("desc"), Unit: g.maybe("u")}
	if g.R.Intn(6) == 0 {
		m.Metadata = g.Attrs()
	}
	k := 5
	if g.O.Wild {
		k = 6
	}
	switch g.R.Intn(k) {
	case 0:
		d := &metricsv1.Gauge{}
		for i := g.Num(); i > 0; i-- {
			d.DataPoints = append(d.DataPoints, g.numPoint())
		}
		m.Data = &metricsv1.Metric_Gauge{Gauge: d}
	case 1:
		d := &metricsv1.Sum{AggregationTemporality: g.temp(), IsMonotonic: g.R.Intn(2) == 0}
		for i := g.Num(); i > 0; i-- {
			d.DataPoints = append(d.DataPoints, g.numPoint())
		}
		m.Data = &metricsv1.Metric_Sum{Sum: d}
	case 2:
		d := &metricsv1.Histogram{AggregationTemporality: g.temp()}
		for i := g.Num(); i > 0; i-- {
			d.DataPoints = append(d.DataPoints, &metricsv1.HistogramDataPoint{
				Attributes: g.Attrs(), StartTimeUnixNano: g.Time(), TimeUnixNano: g.Time(), Count: uint64(g.R.Intn(50)),
				Sum: g.optF(), BucketCounts: g.u64s(), ExplicitBounds: g.f64s(), Exemplars: g.exemplars(),
				Flags: uint32(g.R.Intn(2)), Min: g.optF(), Max: g.optF(),
			})
		}
		m.Data = &metricsv1.Metric_Histogram{Histogram: d}
	case 3:
		d := &metricsv1.ExponentialHistogram{AggregationTemporality: g.temp()}
		for i := g.Num(); i > 0; i-- {
			d.DataPoints = append(d.DataPoints, &metricsv1.ExponentialHistogramDataPoint{
				Attributes: g.Attrs(), StartTimeUnixNano: g.Time(), TimeUnixNano: g.Time(), Count: uint64(g.R.Intn(50)),
				Sum: g.optF(), Scale: int32(g.R.Intn(20) - 10), ZeroCount: uint64(g.R.Intn(4)),
				Positive: g.buckets(), Negative: g.buckets(), Exemplars: g.exemplars(),
				Flags: uint32(g.R.Intn(2)), Min: g.optF(), Max: g.optF(), ZeroThreshold: g.Float(),
			})
		}
		m.Data = &metricsv1.Metric_ExponentialHistogram{ExponentialHistogram: d}
	case 4:
		d := &metricsv1.Summary{}
		for i := g.Num(); i > 0; i-- {
			p := &metricsv1.SummaryDataPoint{
				Attributes: g.Attrs(), StartTimeUnixNano: g.Time(), TimeUnixNano: g.Time(), Count: uint64(g.R.Intn(50)),
				Sum: g.Float(), Flags: uint32(g.R.Intn(2)),
			}
			for j := g.R.Intn(3); j > 0; j-- {
				p.QuantileValues = append(p.QuantileValues, &metricsv1.SummaryDataPoint_ValueAtQuantile{Quantile: g.R.Float64(), Value: g.Float()})
			}
			d.DataPoints = append(d.DataPoints, p)
		}
		m.Data = &metricsv1.Metric_Summary{Summary: d}
	}
	return m
}

func (g *G) Metrics() *v1.Data {
	md := &metricsv1.MetricsData{}
	for i := g.Num(); i > 0; i-- {
		rm := &metricsv1.ResourceMetrics{Resource: g.Resource(), SchemaUrl: g.maybe("rs")}
		for j := g.Num(); j > 0; j-- {
			sm := &metricsv1.ScopeMetrics{Scope: g.Scope(), SchemaUrl: g.maybe("ss")}
			for k := g.Num(); k > 0; k-- {
				sm.Metrics = append(sm.Metrics, g.Metric())
			}
			rm.ScopeMetrics = append(rm.ScopeMetrics, sm)
		}
		md.ResourceMetrics = append(md.ResourceMetrics, rm)
	}
	return &v1.Data{Data: &v1.Data_Metrics{Metrics: md}}
}

var levels = []string{"", "TRACE", "DEBUG", "INFO", "WARN", "ERROR"}

func (g *G) Log() *logsv1.LogRecord {
	l := &logsv1.LogRecord{
		TimeUnixNano: g.Time(), ObservedTimeUnixNano: g.Time(), SeverityNumber: logsv1.SeverityNumber(g.R.Intn(25)),
		SeverityText: levels[g.R.Intn(len(levels))], Attributes: g.Attrs(), DroppedAttributesCount: uint32(g.R.Intn(3)),
		Flags: uint32(g.R.Intn(2)), TraceId: g.bytes(16), SpanId: g.bytes(8),
	}
	if g.R.Intn(5) > 0 {
		l.Body = g.Any(2)
	}
	return l
}

func (g *G) Logs() *v1.Data {
	ld := &logsv1.LogsData{}
	for i := g.Num(); i > 0; i-- {
		rl := &logsv1.ResourceLogs{Resource: g.Resource(), SchemaUrl: g.maybe("rs")}
		for j := g.Num(); j > 0; j-- {
			sl := &logsv1.ScopeLogs{Scope: g.Scope(), SchemaUrl: g.maybe("ss")}
			for k := g.Num(); k > 0; k-- {
				sl.LogRecords = append(sl.LogRecords, g.Log())
			}
			rl.ScopeLogs = append(rl.ScopeLogs, sl)
		}
		ld.ResourceLogs = append(ld.ResourceLogs, rl)
	}
	return &v1.Data{Data: &v1.Data_Logs{Logs: ld}}
}

func (g *G) Span() *tracev1.Span {
	st := g.Time()
	s := &tracev1.Span{
		TraceId: g.bytes(16), SpanId: g.bytes(8), TraceState: g.maybe("ts"), ParentSpanId: g.bytes(8),
		Flags: uint32(g.R.Intn(3)), Name: g.Word("span"), Kind: tracev1.Span_SpanKind(g.R.Intn(6)),
		StartTimeUnixNano: st, EndTimeUnixNano: st + uint64(g.R.Intn(1e9)), Attributes: g.Attrs(),
		DroppedAttributesCount: uint32(g.R.Intn(2)), DroppedEventsCount: uint32(g.R.Intn(2)), DroppedLinksCount: uint32(g.R.Intn(2)),
	}
	for i := g.R.Intn(3); i > 0; i-- {
		s.Events = append(s.Events, &tracev1.Span_Event{TimeUnixNano: g.Time(), Name: g.Word("ev"), Attributes: g.Attrs(), DroppedAttributesCount: uint32(g.R.Intn(2))})
	}
	for i := g.R.Intn(3); i > 0; i-- {
		s.Links = append(s.Links, &tracev1.Span_Link{TraceId: g.bytes(16), SpanId: g.bytes(8), TraceState: g.maybe("ts"), Attributes: g.Attrs(), DroppedAttributesCount: uint32(g.R.Intn(2)), Flags: uint32(g.R.Intn(2))})
	}
	if g.R.Intn(3) > 0 {
		s.Status = &tracev1.Status{Message: g.maybe("msg"), Code: tracev1.Status_StatusCode(g.R.Intn(3))}
	}
	return s
}

func (g *G) Traces() *v1.Data {
	td := &tracev1.TracesData{}
	for i := g.Num(); i > 0; i-- {
		rs := &tracev1.ResourceSpans{Resource: g.Resource(), SchemaUrl: g.maybe("rs")}
		for j := g.Num(); j > 0; j-- {
			ss := &tracev1.ScopeSpans{Scope: g.Scope(), SchemaUrl: g.maybe("ss")}
			for k := g.Num(); k > 0; k-- {
				ss.Spans = append(ss.Spans, g.Span())
			}
			rs.ScopeSpans = append(rs.ScopeSpans, ss)
		}
		td.ResourceSpans = append(td.ResourceSpans, rs)
	}
	return &v1.Data{Data: &v1.Data_Traces{Traces: td}}
}

// Data makes telemetry of signal 0 metrics, 1 logs, 2 traces.
func (g *G) Data(signal int) *v1.Data {
	switch signal {
	case 0:
		return g.Metrics()
	case 1:
		return g.Logs()
	default:
		return g.Traces()
	}
}

// Scope of a signal number as used by Data.
func ScopeOf(signal int) v1.Scan_SCOPE {
	return []v1.Scan_SCOPE{v1.Scan_METRICS, v1.Scan_LOGS, v1.Scan_TRACES}[signal]
}
