package main

import (
	"bytes"
	"context"
	bin "encoding/binary"
	"fmt"
	"io"
	"math"
	"math/rand"
	"net"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/zverif/gen"
	"github.com/gernest/requiemdb/internal/zverif/rqproc"
	"github.com/gernest/requiemdb/internal/zverif/zv"
	commonv1 "go.opentelemetry.io/proto/otlp/common/v1"
	logsv1 "go.opentelemetry.io/proto/otlp/logs/v1"
	metricsv1 "go.opentelemetry.io/proto/otlp/metrics/v1"
	resourcev1 "go.opentelemetry.io/proto/otlp/resource/v1"
	tracev1 "go.opentelemetry.io/proto/otlp/trace/v1"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/types/known/durationpb"
	"google.golang.org/protobuf/types/known/timestamppb"
)

var strange = []uint64{0, 1, 999, 1e9, math.MaxInt64, math.MaxInt64 + 1, math.MaxUint64, math.MaxUint64 - 1, 18446744073709551000, 1 << 62}

func nest(r *rand.Rand, depth int) *commonv1.AnyValue {
	v := gen.Str("leaf")
	for i := 0; i < depth; i++ {
		if r.Intn(2) == 0 {
			v = &commonv1.AnyValue{Value: &commonv1.AnyValue_ArrayValue{ArrayValue: &commonv1.ArrayValue{Values: []*commonv1.AnyValue{v}}}}
		} else {
			v = &commonv1.AnyValue{Value: &commonv1.AnyValue_KvlistValue{KvlistValue: &commonv1.KeyValueList{Values: []*commonv1.KeyValue{{Key: "k", Value: v}}}}}
		}
	}
	return v
}

// hostile draws telemetry no sane client sends; kind tells what it is.
// Its time lies in the period unless it is a strange time.
func hostile(r *rand.Rand, n int) (d *v1.Data, kind string, timed bool) {
	at := uint64(epoch.UnixNano()) + uint64(r.Int63n(int64(period)))
	timed = true
	kinds := []string{"times", "empty", "nested", "many-attributes", "long-strings", "odd-ids", "enums", "mismatched", "labels-alike", "no-values"}
	kind = kinds[r.Intn(len(kinds))]
	res := &resourcev1.Resource{Attributes: []*commonv1.KeyValue{gen.KV("host", "x")}}
	lr := &logsv1.LogRecord{TimeUnixNano: at, Body: gen.Str("b")}
	sp := &tracev1.Span{StartTimeUnixNano: at, EndTimeUnixNano: at + 1, Name: "s"}
	np := &metricsv1.NumberDataPoint{TimeUnixNano: at, Value: &metricsv1.NumberDataPoint_AsInt{AsInt: 1}}
	met := &metricsv1.Metric{Name: "m", Data: &metricsv1.Metric_Gauge{Gauge: &metricsv1.Gauge{DataPoints: []*metricsv1.NumberDataPoint{np}}}}
	scope := &commonv1.InstrumentationScope{Name: "sc"}
	switch kind {
	case "times":
		x, y := strange[r.Intn(len(strange))], strange[r.Intn(len(strange))]
		lr.TimeUnixNano, lr.ObservedTimeUnixNano = x, y
		sp.StartTimeUnixNano, sp.EndTimeUnixNano = x, y
		sp.Events = []*tracev1.Span_Event{{TimeUnixNano: y, Name: "e"}}
		np.TimeUnixNano, np.StartTimeUnixNano = x, y
		np.Exemplars = []*metricsv1.Exemplar{{TimeUnixNano: y}}
		if r.Intn(2) == 0 {
			met.GetGauge().DataPoints = append(met.GetGauge().DataPoints, &metricsv1.NumberDataPoint{TimeUnixNano: y})
		}
		timed = false
	case "empty":
		timed = false
		switch r.Intn(4) {
		case 0:
			res, scope, lr, sp, met = nil, nil, &logsv1.LogRecord{}, &tracev1.Span{}, &metricsv1.Metric{}
		case 1:
			met.Data = &metricsv1.Metric_Sum{}
			lr.Body = &commonv1.AnyValue{}
			sp.Status = &tracev1.Status{}
			scope = &commonv1.InstrumentationScope{}
		case 2:
			return [](*v1.Data){{Data: &v1.Data_Metrics{Metrics: &metricsv1.MetricsData{ResourceMetrics: []*metricsv1.ResourceMetrics{{}, {ScopeMetrics: []*metricsv1.ScopeMetrics{{}}}}}}},
				{Data: &v1.Data_Logs{Logs: &logsv1.LogsData{ResourceLogs: []*logsv1.ResourceLogs{{}, {ScopeLogs: []*logsv1.ScopeLogs{{}}}}}}},
				{Data: &v1.Data_Traces{Traces: &tracev1.TracesData{ResourceSpans: []*tracev1.ResourceSpans{{}, {ScopeSpans: []*tracev1.ScopeSpans{{}}}}}}}}[r.Intn(3)], kind, false
		default:
			return []*v1.Data{{Data: &v1.Data_Metrics{Metrics: &metricsv1.MetricsData{}}}, {Data: &v1.Data_Logs{Logs: &logsv1.LogsData{}}}, {Data: &v1.Data_Traces{Traces: &tracev1.TracesData{}}}}[r.Intn(3)], kind, false
		}
	case "nested":
		v := nest(r, 1<<r.Intn(12))
		kv := []*commonv1.KeyValue{{Key: "deep", Value: v}, {Key: "none"}, {}, {Key: "empty", Value: &commonv1.AnyValue{}}}
		lr.Body, lr.Attributes, sp.Attributes, np.Attributes, res.Attributes, scope.Attributes = v, kv, kv, kv, kv, kv
	case "many-attributes":
		var kv []*commonv1.KeyValue
		for i := 0; i < 2000; i++ {
			kv = append(kv, gen.KV(fmt.Sprint("k", i, "-", n), fmt.Sprint("v", r.Intn(3))))
		}
		lr.Attributes, sp.Attributes, np.Attributes = kv, kv, kv
	case "long-strings":
		s := strings.Repeat("long\x00=", 1<<r.Intn(17))
		kv := []*commonv1.KeyValue{gen.KV(s, "v"), gen.KV("k", s), gen.KV("", ""), {Key: s, Value: &commonv1.AnyValue{Value: &commonv1.AnyValue_BytesValue{BytesValue: []byte(s)}}}}
		lr.Attributes, sp.Attributes, np.Attributes, sp.Name, met.Name, scope.Name = kv, kv, kv, s, s, s
		sp.TraceState, lr.SeverityText = s, s
	case "odd-ids":
		id := func() []byte { b := make([]byte, []int{0, 1, 7, 15, 17, 1000}[r.Intn(6)]); r.Read(b); return b }
		sp.TraceId, sp.SpanId, sp.ParentSpanId = id(), id(), id()
		sp.Links = []*tracev1.Span_Link{{TraceId: id(), SpanId: id()}, {}}
		lr.TraceId, lr.SpanId = id(), id()
		np.Exemplars = []*metricsv1.Exemplar{{SpanId: id(), TraceId: id()}, {}}
	case "enums":
		sp.Kind, sp.Status = tracev1.Span_SpanKind(r.Int31()-1<<30), &tracev1.Status{Code: tracev1.Status_StatusCode(-5)}
		lr.SeverityNumber = logsv1.SeverityNumber(r.Int31() - 1<<30)
		lr.Flags, sp.Flags, np.Flags = math.MaxUint32, math.MaxUint32, math.MaxUint32
		met.Data = &metricsv1.Metric_Sum{Sum: &metricsv1.Sum{AggregationTemporality: metricsv1.AggregationTemporality(-1), DataPoints: []*metricsv1.NumberDataPoint{np}}}
	case "mismatched":
		if r.Intn(2) == 0 {
			met.Data = &metricsv1.Metric_Histogram{Histogram: &metricsv1.Histogram{DataPoints: []*metricsv1.HistogramDataPoint{{TimeUnixNano: at, BucketCounts: []uint64{1, math.MaxUint64, 3}, ExplicitBounds: []float64{math.NaN(), math.Inf(-1)}, Count: 1}}}}
		} else {
			met.Data = &metricsv1.Metric_ExponentialHistogram{ExponentialHistogram: &metricsv1.ExponentialHistogram{DataPoints: []*metricsv1.ExponentialHistogramDataPoint{{TimeUnixNano: at, Scale: math.MinInt32, ZeroThreshold: math.NaN(), Positive: &metricsv1.ExponentialHistogramDataPoint_Buckets{Offset: math.MaxInt32, BucketCounts: []uint64{1, 2}}}}}}
		}
		sp.EndTimeUnixNano = at - 100
	case "labels-alike":
		kv := []*commonv1.KeyValue{gen.KV("a=b", "c"), gen.KV("a", "b=c"), gen.KV("a", "b=c"), gen.KV("%s%n", "%!d"), gen.KV("\xf3\xa0\x80\x81", "\u202e")}
		lr.Attributes, sp.Attributes, np.Attributes, res.Attributes = kv, kv, kv, kv
	default:
		np.Value = nil
		lr.Body = nil
		met.Data = []*metricsv1.Metric{{Data: &metricsv1.Metric_Summary{Summary: &metricsv1.Summary{DataPoints: []*metricsv1.SummaryDataPoint{{TimeUnixNano: at, QuantileValues: []*metricsv1.SummaryDataPoint_ValueAtQuantile{{}}}}}}}, met}[r.Intn(2)].Data
	}
	if res != nil {
		res.Attributes = append(res.Attributes[:len(res.Attributes):len(res.Attributes)], gen.KV("sample", fmt.Sprint("sample-", n)))
	}
	switch r.Intn(3) {
	case 0:
		d = &v1.Data{Data: &v1.Data_Metrics{Metrics: &metricsv1.MetricsData{ResourceMetrics: []*metricsv1.ResourceMetrics{{Resource: res, ScopeMetrics: []*metricsv1.ScopeMetrics{{Scope: scope, Metrics: []*metricsv1.Metric{met}}}}}}}}
	case 1:
		d = &v1.Data{Data: &v1.Data_Logs{Logs: &logsv1.LogsData{ResourceLogs: []*logsv1.ResourceLogs{{Resource: res, ScopeLogs: []*logsv1.ScopeLogs{{Scope: scope, LogRecords: []*logsv1.LogRecord{lr}}}}}}}}
	default:
		d = &v1.Data{Data: &v1.Data_Traces{Traces: &tracev1.TracesData{ResourceSpans: []*tracev1.ResourceSpans{{Resource: res, ScopeSpans: []*tracev1.ScopeSpans{{Scope: scope, Spans: []*tracev1.Span{sp}}}}}}}}
	}
	return d, kind, timed
}

// oddScan draws a scan request no sane client sends.
func oddScan(r *rand.Rand) (*v1.Scan, string) {
	s := &v1.Scan{Scope: v1.Scan_SCOPE(r.Intn(4)), Now: timestamppb.New(epoch.Add(time.Hour))}
	ts := func() *timestamppb.Timestamp {
		return []*timestamppb.Timestamp{nil, {}, {Seconds: -62135596800}, {Seconds: 253402300799, Nanos: 999999999}, {Seconds: math.MaxInt64}, {Seconds: math.MinInt64}, {Nanos: -1}, {Nanos: math.MaxInt32},
			timestamppb.New(epoch), timestamppb.New(epoch.Add(period)), {Seconds: math.MaxInt64 / 1000000000}, {Seconds: math.MinInt64 / 1000000000}}[r.Intn(12)]
	}
	kind := ""
	for k := 1 + r.Intn(3); k > 0; k-- {
		what := []string{"scope", "range", "limit", "now", "offset", "filters", "many-filters"}[r.Intn(7)]
		kind += " " + what
		switch what {
		case "scope":
			s.Scope = []v1.Scan_SCOPE{-1, 0, 4, 5, 99, math.MaxInt32, math.MinInt32}[r.Intn(7)]
		case "range":
			s.TimeRange = &v1.Scan_TimeRange{Start: ts(), End: ts()}
		case "limit":
			s.Limit = []uint64{1, math.MaxUint64, 1 << 63, math.MaxInt64}[r.Intn(4)]
			s.Reverse = r.Intn(2) == 0
		case "now":
			s.Now = ts()
		case "offset":
			s.Offset = []*durationpb.Duration{{}, {Seconds: math.MaxInt64}, {Seconds: math.MinInt64}, {Nanos: -5}, {Seconds: 5, Nanos: -5}, durationpb.New(-time.Hour), durationpb.New(math.MaxInt64)}[r.Intn(7)]
		case "filters":
			fs := []*v1.Scan_Filter{{}, {Value: &v1.Scan_Filter_Base{}}, {Value: &v1.Scan_Filter_Attr{}}, {Value: &v1.Scan_Filter_Base{Base: &v1.Scan_BaseFilter{}}}, {Value: &v1.Scan_Filter_Attr{Attr: &v1.Scan_AttrFilter{}}},
				{Value: &v1.Scan_Filter_Base{Base: &v1.Scan_BaseFilter{Prop: 77, Value: "x"}}}, {Value: &v1.Scan_Filter_Base{Base: &v1.Scan_BaseFilter{Prop: -7, Value: strings.Repeat("x", 100000)}}},
				{Value: &v1.Scan_Filter_Attr{Attr: &v1.Scan_AttrFilter{Prop: 77, Key: "k", Value: strings.Repeat("y", 70000)}}}, {Value: &v1.Scan_Filter_Base{Base: &v1.Scan_BaseFilter{Prop: v1.Scan_TRACE_ID, Value: "zz"}}}}
			for j := 1 + r.Intn(3); j > 0; j-- {
				s.Filters = append(s.Filters, fs[r.Intn(len(fs))])
			}
		default:
			for j := 0; j < 5000; j++ {
				s.Filters = append(s.Filters, &v1.Scan_Filter{Value: &v1.Scan_Filter_Attr{Attr: &v1.Scan_AttrFilter{Prop: v1.Scan_ATTRIBUTES, Key: fmt.Sprint("k", j), Value: "v"}}})
			}
		}
	}
	return s, kind
}

// rawCodec sends bytes as they are.
type rawCodec struct{}

func (rawCodec) Marshal(v any) ([]byte, error)   { return *v.(*[]byte), nil }
func (rawCodec) Unmarshal(b []byte, v any) error { *v.(*[]byte) = append([]byte{}, b...); return nil }
func (rawCodec) Name() string                    { return "proto" }

// garbage sends what is no valid message to a method.
func garbage(c context.Context, r *rand.Rand, cc *grpc.ClientConn, valid []byte) error {
	b := append([]byte{}, valid...)
	switch r.Intn(5) {
	case 0:
		b = make([]byte, r.Intn(300))
		r.Read(b)
	case 1:
		if len(b) > 0 {
			b = b[:r.Intn(len(b))]
		}
	case 2:
		for i := 0; i < 1+r.Intn(4) && len(b) > 0; i++ {
			b[r.Intn(len(b))] ^= byte(1 + r.Intn(255))
		}
	case 3: // nested beyond any limit
		b = nil
		for i := 0; i < 20000; i++ {
			b = append(b, 0x0a, 0x80, 0x80, 0x01)
		}
	default:
		b = bytes.Repeat([]byte{0x0a, 0}, 5<<20/2) // beyond the message limit
	}
	m := []string{"/v1.RQ/ScanSamples", "/v1.RQ/GetVersion", "/v1.RQ/Nothing", "/opentelemetry.proto.collector.metrics.v1.MetricsService/Export",
		"/opentelemetry.proto.collector.logs.v1.LogsService/Export", "/opentelemetry.proto.collector.trace.v1.TraceService/Export"}[r.Intn(6)]
	var out []byte
	return cc.Invoke(c, m, &b, &out, grpc.ForceCodec(rawCodec{}))
}

// attack runs good clients among hostile requests and accounts for all that was
// acknowledged. valid times out slow answers.
func attack(t *zv.T, dial func() *grpc.ClientConn, raw func() (net.Conn, error), n int) (l *ledger) {
	r := t.Rand
	l = newLedger()
	cc := dial()
	defer cc.Close()
	var wg sync.WaitGroup
	stop := make(chan struct{})
	wg.Add(1)
	go func() {
		defer wg.Done()
		clients(t, l, dial, 2, n, stop, false)
	}()
	alive := func(what string, err error) {
		if c := status.Code(err); c == codes.Unavailable || c == codes.DeadlineExceeded {
			close(stop)
			t.Fatal("service", "%s ended with %v", what, err)
		}
	}
	for i := 0; i < n; i++ {
		c, cancel := context.WithTimeout(ctx, 60*time.Second)
		var err error
		what := ""
		switch k := r.Intn(12); {
		case k < 6:
			id := l.next()
			d, kind, timed := hostile(r, id)
			what = "hostile export (" + kind + ")"
			key := fmt.Sprint("sample-", id)
			known := gen.ByTag(d)[key] != nil
			if known {
				l.open(d, key)
			}
			err = export(c, cc, d)
			t.Count("hostile_"+kind, 1)
			if err == nil && timed && known {
				l.ack(key)
			} else if err != nil {
				t.Count("hostile_refused", 1)
			}
		case k < 9:
			s, kind := oddScan(r)
			what = "odd scan (" + kind + ") " + clipS(fmt.Sprint(s), 400)
			var d *v1.Data
			d, err = v1.NewRQClient(cc).ScanSamples(c, s)
			t.Count("odd_scans", 1)
			if err == nil && d == nil {
				t.Fatal("service", "%s: no document and no error", what)
			}
		case k < 11:
			d := payload(r, 1<<30)
			what = "garbage"
			err = garbage(c, r, cc, gen.Bytes(d))
			if status.Code(err) == codes.Unavailable && strings.Contains(err.Error(), "EOF") {
				err = nil
			}
			t.Count("garbage_messages", 1)
		default:
			what = "raw connection"
			if x, e := raw(); e == nil {
				x.SetDeadline(time.Now().Add(2 * time.Second))
				switch r.Intn(4) {
				case 0:
					io.WriteString(x, "GET / HTTP/1.1\r\nHost: x\r\n\r\n")
				case 1:
					b := make([]byte, r.Intn(4000))
					r.Read(b)
					x.Write(b)
				case 2:
					io.WriteString(x, "PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n")
					b := make([]byte, 9+r.Intn(50))
					r.Read(b)
					bin.BigEndian.PutUint16(b, uint16(r.Intn(40)))
					x.Write(b)
				}
				x.Close()
			}
			t.Count("raw_connections", 1)
		}
		cancel()
		t.Eval(1)
		alive(what, err)
		t.Distinct(what, status.Code(err))
	}
	wg.Wait()
	if _, err := v1.NewRQClient(cc).GetVersion(ctx, &v1.GetVersionRequest{}); err != nil {
		t.Fatal("service", "after the attack the version is answered with %v", err)
	}
	return l
}

func clipS(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func propC27() *zv.Prop {
	scan := func(cc *grpc.ClientConn) func(*v1.Scan) (*v1.Data, error) {
		return func(s *v1.Scan) (*v1.Data, error) {
			return v1.NewRQClient(cc).ScanSamples(ctx, s, grpc.MaxCallRecvMsgSize(1<<30), grpc.UseCompressor("zstd"))
		}
	}
	settle := func(t *zv.T, cc *grpc.ClientConn, l *ledger) {
		end := time.Now().Add(60 * time.Second)
		for missing := true; missing && time.Now().Before(end); {
			missing = false
			have := map[string]map[string]int{}
			for sig := 0; sig < 3; sig++ {
				d, err := scan(cc)(periodScan(sig))
				if err != nil {
					t.Fatal("scan-error", "%v", err)
				}
				for k := range gen.ByTag(d) {
					have[k] = map[string]int{}
				}
			}
			for k := range l.acked {
				missing = missing || have[k] == nil
			}
			time.Sleep(50 * time.Millisecond)
		}
		l.settle(t, "after hostile requests", scan(cc))
	}
	run := func(t *zv.T) {
		s := serve(t, t.Dir, true)
		closed := false
		defer func() {
			if !closed {
				s.close(false)
			}
		}()
		l := attack(t, func() *grpc.ClientConn { return s.dial(t) }, s.lis.Dial, 30)
		cc := s.dial(t)
		settle(t, cc, l)
		cc.Close()
		s.close(true)
		closed = true
		// and what is in the store does not harm the next start
		s = serve(t, t.Dir, false)
		closed = false
		cc = s.dial(t)
		defer cc.Close()
		l.settle(t, "after hostile requests and a restart", scan(cc))
		t.Count("acknowledged", len(l.acked))
		t.Sample(map[string]any{"acknowledged": len(l.acked)})
	}
	proc := func(t *zv.T) {
		dir := filepath.Join(t.Dir, "data")
		t.Must(os.MkdirAll(dir, 0o755))
		p := rqproc.Start(t, dir)
		l := attack(t, func() *grpc.ClientConn { return p.Dial(t) }, func() (net.Conn, error) { return net.Dial("tcp", p.Addr) }, 40)
		cc := p.Dial(t)
		settle(t, cc, l)
		cc.Close()
		p.Stop(t, syscall.SIGTERM)
		t.Count("acknowledged", len(l.acked))
	}
	return &zv.Prop{
		ID:     "C27",
		Rule:   "an execution runs two well-behaved clients while hostile requests arrive: legal but unusual telemetry (strange times, empty messages, deep nesting, thousands of attributes, long strings, odd ids and enums), odd scan requests, malformed messages and raw connections; oracle: every request is answered in time, the server never ends, and every acknowledged export in the period, good or hostile, is stored exactly once and found, also after a restart. Requests count as distinct by kind and status",
		Assume: []string{"a message is at most 4 MB (gRPC limit)", "a request is slow after 60 s"},
		Families: []zv.Family{
			{Name: "service", Quick: 16, Thorough: 400, Run: run},
			{Name: "process", Quick: 3, Thorough: 60, Run: proc},
		},
	}
}
