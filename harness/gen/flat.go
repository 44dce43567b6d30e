package gen

import (
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"sort"
	"strings"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	commonv1 "go.opentelemetry.io/proto/otlp/common/v1"
	logsv1 "go.opentelemetry.io/proto/otlp/logs/v1"
	metricsv1 "go.opentelemetry.io/proto/otlp/metrics/v1"
	resourcev1 "go.opentelemetry.io/proto/otlp/resource/v1"
	tracev1 "go.opentelemetry.io/proto/otlp/trace/v1"
	"google.golang.org/protobuf/proto"
)

// Bytes is a deterministic encoding of a message.
func Bytes(m proto.Message) []byte {
	b, err := proto.MarshalOptions{Deterministic: true}.Marshal(m)
	if err != nil {
		return []byte("ERR:" + err.Error())
	}
	return b
}

// Leaf is one data point, log record or span with the context it belongs to.
type Leaf struct {
	Signal   string
	Resource string // schema + resource identity
	Scope    string
	Metric   string // name, unit, kind, temporality, monotonic
	Point    string
	Time     uint64
	// the real messages
	ResourceMsg *resourcev1.Resource
	ResSchema   string
	ScopeMsg    *commonv1.InstrumentationScope
	ScopeSchema string
	Name        string
	Attrs       []*commonv1.KeyValue
	MetricMsg   *metricsv1.Metric
	LogMsg      *logsv1.LogRecord
	SpanMsg     *tracev1.Span
}

// Key identifies the leaf with all its context.
func (l *Leaf) Key() string {
	return strings.Join([]string{l.Signal, l.Resource, l.Scope, l.Metric, l.Point}, "\x1f")
}

// short stands for a long identity.
func short(s string) string {
	if len(s) < 1024 {
		return s
	}
	h := sha256.Sum256([]byte(s))
	return s[:64] + "…#" + hex.EncodeToString(h[:])
}

func ResKey(schema string, r *resourcev1.Resource) string {
	var b []byte
	if r != nil {
		b = Bytes(&resourcev1.Resource{Attributes: r.Attributes})
	}
	return short(fmt.Sprintf("%q|%x", schema, b))
}

func ScopeKey(schema string, s *commonv1.InstrumentationScope) string {
	var b []byte
	if s != nil {
		b = Bytes(&commonv1.InstrumentationScope{Name: s.Name, Version: s.Version, Attributes: s.Attributes})
	}
	return short(fmt.Sprintf("%q|%x", schema, b))
}

func MetricKey(m *metricsv1.Metric) string {
	kind, temp, mono := "none", metricsv1.AggregationTemporality(0), false
	switch e := m.Data.(type) {
	case *metricsv1.Metric_Gauge:
		kind = "gauge"
	case *metricsv1.Metric_Sum:
		kind, temp, mono = "sum", e.Sum.GetAggregationTemporality(), e.Sum.GetIsMonotonic()
	case *metricsv1.Metric_Histogram:
		kind, temp = "hist", e.Histogram.GetAggregationTemporality()
	case *metricsv1.Metric_ExponentialHistogram:
		kind, temp = "ehist", e.ExponentialHistogram.GetAggregationTemporality()
	case *metricsv1.Metric_Summary:
		kind = "summary"
	}
	return short(fmt.Sprintf("%q|%q|%s|%d|%v", m.Name, m.Unit, kind, temp, mono))
}

type point interface {
	proto.Message
	GetTimeUnixNano() uint64
	GetAttributes() []*commonv1.KeyValue
}

// Points of a metric.
func Points(m *metricsv1.Metric) []point {
	var o []point
	for _, p := range m.GetGauge().GetDataPoints() {
		o = append(o, p)
	}
	for _, p := range m.GetSum().GetDataPoints() {
		o = append(o, p)
	}
	for _, p := range m.GetHistogram().GetDataPoints() {
		o = append(o, p)
	}
	for _, p := range m.GetExponentialHistogram().GetDataPoints() {
		o = append(o, p)
	}
	for _, p := range m.GetSummary().GetDataPoints() {
		o = append(o, p)
	}
	return o
}

// Leaves lists every data point, record and span of d in document order.
func Leaves(d *v1.Data) []*Leaf {
	var o []*Leaf
	for _, rm := range d.GetMetrics().GetResourceMetrics() {
		for _, sm := range rm.ScopeMetrics {
			for _, m := range sm.Metrics {
				for _, p := range Points(m) {
					o = append(o, &Leaf{Signal: "m", Resource: ResKey(rm.SchemaUrl, rm.Resource), Scope: ScopeKey(sm.SchemaUrl, sm.Scope),
						Metric: MetricKey(m), Point: string(Bytes(p)), Time: p.GetTimeUnixNano(), ResourceMsg: rm.Resource, ResSchema: rm.SchemaUrl,
						ScopeMsg: sm.Scope, ScopeSchema: sm.SchemaUrl, Name: m.Name, Attrs: p.GetAttributes(), MetricMsg: m})
				}
			}
		}
	}
	for _, rm := range d.GetLogs().GetResourceLogs() {
		for _, sm := range rm.ScopeLogs {
			for _, p := range sm.LogRecords {
				o = append(o, &Leaf{Signal: "l", Resource: ResKey(rm.SchemaUrl, rm.Resource), Scope: ScopeKey(sm.SchemaUrl, sm.Scope),
					Point: string(Bytes(p)), Time: p.GetTimeUnixNano(), ResourceMsg: rm.Resource, ResSchema: rm.SchemaUrl,
					ScopeMsg: sm.Scope, ScopeSchema: sm.SchemaUrl, Attrs: p.GetAttributes(), LogMsg: p})
			}
		}
	}
	for _, rm := range d.GetTraces().GetResourceSpans() {
		for _, sm := range rm.ScopeSpans {
			for _, p := range sm.Spans {
				o = append(o, &Leaf{Signal: "t", Resource: ResKey(rm.SchemaUrl, rm.Resource), Scope: ScopeKey(sm.SchemaUrl, sm.Scope),
					Point: string(Bytes(p)), Time: p.GetStartTimeUnixNano(), ResourceMsg: rm.Resource, ResSchema: rm.SchemaUrl,
					ScopeMsg: sm.Scope, ScopeSchema: sm.SchemaUrl, Name: p.Name, Attrs: p.GetAttributes(), SpanMsg: p})
			}
		}
	}
	return o
}

// Multiset counts leaves by key.
func Multiset(ds ...*v1.Data) map[string]int {
	o := map[string]int{}
	for _, d := range ds {
		for _, l := range Leaves(d) {
			o[l.Key()]++
		}
	}
	return o
}

// DiffMultiset describes how got differs from want ("" when equal).
func DiffMultiset(want, got map[string]int) string {
	var ls []string
	for k, n := range want {
		if got[k] != n {
			ls = append(ls, fmt.Sprintf("want %d got %d of %s", n, got[k], show(k)))
		}
	}
	for k, n := range got {
		if want[k] == 0 {
			ls = append(ls, fmt.Sprintf("unexpected %d of %s", n, show(k)))
		}
	}
	if len(ls) == 0 {
		return ""
	}
	sort.Strings(ls)
	n := len(ls)
	if len(ls) > 4 {
		ls = ls[:4]
	}
	return fmt.Sprintf("%d differences: %s", n, strings.Join(ls, "; "))
}

func show(k string) string {
	s := strings.ReplaceAll(k, "\x1f", " / ")
	if len(s) > 260 {
		h := sha256.Sum256([]byte(k))
		s = s[:260] + "…#" + hex.EncodeToString(h[:4])
	}
	return fmt.Sprintf("%q", s)
}

// MinTime is the earliest known (non-zero) timestamp of the sample, zero when
// there is none.
func MinTime(d *v1.Data) uint64 {
	var m uint64
	for _, l := range Leaves(d) {
		if l.Time != 0 && (m == 0 || l.Time < m) {
			m = l.Time
		}
	}
	return m
}
