package main

import (
	"context"
	"encoding/hex"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/version"
	"github.com/gernest/requiemdb/internal/zverif/gen"
	"github.com/gernest/requiemdb/internal/zverif/rqproc"
	"github.com/gernest/requiemdb/internal/zverif/zv"
	collector_logs "go.opentelemetry.io/proto/otlp/collector/logs/v1"
	collector_metrics "go.opentelemetry.io/proto/otlp/collector/metrics/v1"
	collector_trace "go.opentelemetry.io/proto/otlp/collector/trace/v1"
	commonv1 "go.opentelemetry.io/proto/otlp/common/v1"
	logsv1 "go.opentelemetry.io/proto/otlp/logs/v1"
	metricsv1 "go.opentelemetry.io/proto/otlp/metrics/v1"
	resourcev1 "go.opentelemetry.io/proto/otlp/resource/v1"
	tracev1 "go.opentelemetry.io/proto/otlp/trace/v1"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/types/known/timestamppb"
)

// called is one call a client made.
type called struct {
	service, method      string
	code                 int64
	trace, parent, state string // what the client says about its own span
	from, to             time.Time
}

func (c *called) name() string { return c.service + "/" + c.method }

// watched keeps what was called in one life of the server.
type watched struct {
	mu      sync.Mutex
	calls   []*called
	exports int
}

// tell makes a call with or without the span it is made in.
func (w *watched) tell(r *rand.Rand, service, method string, do func(c context.Context) error) *called {
	x := &called{service: service, method: method}
	c := ctx
	if r.Intn(2) == 0 {
		var b [24]byte
		r.Read(b[:])
		b[0], b[16] = b[0]|1, b[16]|1
		x.trace, x.parent = hex.EncodeToString(b[:16]), hex.EncodeToString(b[16:])
		md := metadata.Pairs("traceparent", "00-"+x.trace+"-"+x.parent+"-0"+fmt.Sprint(r.Intn(2)))
		if r.Intn(2) == 0 {
			x.state = fmt.Sprintf("vendor=%d", r.Intn(100))
			md.Set("tracestate", x.state)
		}
		c = metadata.NewOutgoingContext(c, md)
	}
	x.from = time.Now()
	err := do(c)
	x.to = time.Now()
	x.code = int64(status.Code(err))
	w.mu.Lock()
	w.calls = append(w.calls, x)
	w.mu.Unlock()
	return x
}

const (
	logsService = "opentelemetry.proto.collector.logs.v1.LogsService"
	rqService   = "v1.RQ"
)

// some makes one call of a kind.
func (w *watched) some(t *zv.T, r *rand.Rand, cc *grpc.ClientConn) {
	res := &resourcev1.Resource{Attributes: []*commonv1.KeyValue{{Key: "from", Value: &commonv1.AnyValue{Value: &commonv1.AnyValue_StringValue{StringValue: "client"}}}}}
	at := uint64(time.Now().UnixNano())
	want := codes.OK
	var x *called
	accepted := 1
	switch r.Intn(6) {
	case 0:
		x = w.tell(r, logsService, "Export", func(c context.Context) error {
			_, err := collector_logs.NewLogsServiceClient(cc).Export(c, &collector_logs.ExportLogsServiceRequest{ResourceLogs: []*logsv1.ResourceLogs{{Resource: res,
				ScopeLogs: []*logsv1.ScopeLogs{{LogRecords: []*logsv1.LogRecord{{TimeUnixNano: at, SeverityText: "INFO"}}}}}}})
			return err
		})
	case 1:
		x = w.tell(r, "opentelemetry.proto.collector.trace.v1.TraceService", "Export", func(c context.Context) error {
			_, err := collector_trace.NewTraceServiceClient(cc).Export(c, &collector_trace.ExportTraceServiceRequest{ResourceSpans: []*tracev1.ResourceSpans{{Resource: res,
				ScopeSpans: []*tracev1.ScopeSpans{{Spans: []*tracev1.Span{{Name: "mine", StartTimeUnixNano: at, EndTimeUnixNano: at + 1}}}}}}})
			return err
		})
	case 2:
		x = w.tell(r, "opentelemetry.proto.collector.metrics.v1.MetricsService", "Export", func(c context.Context) error {
			_, err := collector_metrics.NewMetricsServiceClient(cc).Export(c, &collector_metrics.ExportMetricsServiceRequest{ResourceMetrics: []*metricsv1.ResourceMetrics{{Resource: res,
				ScopeMetrics: []*metricsv1.ScopeMetrics{{Metrics: []*metricsv1.Metric{{Name: "mine", Data: &metricsv1.Metric_Gauge{Gauge: &metricsv1.Gauge{
					DataPoints: []*metricsv1.NumberDataPoint{{TimeUnixNano: at, Value: &metricsv1.NumberDataPoint_AsInt{AsInt: 1}}}}}}}}}}}})
			return err
		})
	case 3:
		accepted = 0
		x = w.tell(r, rqService, "GetVersion", func(c context.Context) error {
			_, err := v1.NewRQClient(cc).GetVersion(c, &v1.GetVersionRequest{})
			return err
		})
	case 4:
		accepted = 0
		x = w.tell(r, rqService, "ScanSamples", func(c context.Context) error {
			_, err := v1.NewRQClient(cc).ScanSamples(c, &v1.Scan{Scope: gen.ScopeOf(r.Intn(3)), Now: timestamppb.New(epoch)}, grpc.MaxCallRecvMsgSize(1<<30))
			return err
		})
	default: // more than the server takes
		accepted = 0
		want = codes.ResourceExhausted
		if r.Intn(4) > 0 {
			return
		}
		x = w.tell(r, logsService, "Export", func(c context.Context) error {
			_, err := collector_logs.NewLogsServiceClient(cc).Export(c, &collector_logs.ExportLogsServiceRequest{ResourceLogs: []*logsv1.ResourceLogs{{SchemaUrl: strings.Repeat("x", 5<<20)}}})
			return err
		})
	}
	if codes.Code(x.code) != want {
		t.Fail("call", "%s ends with code %d instead of %d", x.name(), x.code, want)
	}
	w.mu.Lock()
	w.exports += accepted
	w.mu.Unlock()
}

const otelgrpcScope = "go.opentelemetry.io/contrib/instrumentation/google.golang.org/grpc/otelgrpc"

// own tells if a resource is the server's.
func own(t *zv.T, res *resourcev1.Resource, schema string) bool {
	for _, a := range res.GetAttributes() {
		if a.Key == "service.name" && a.Value.GetStringValue() == "requiemdb" {
			if len(res.Attributes) != 1 || !strings.HasPrefix(schema, "https://opentelemetry.io/schemas/") {
				t.Fail("resource", "the server describes itself as %v of %s", res, schema)
			}
			return true
		}
	}
	return false
}

func attrOf(kv []*commonv1.KeyValue, k string) (string, int64) {
	for _, a := range kv {
		if a.Key == k {
			return a.Value.GetStringValue(), a.Value.GetIntValue()
		}
	}
	return "", -1
}

// spansOf picks the spans of calls out of an answer.
func spansOf(t *zv.T, d *v1.Data) (o []*tracev1.Span) {
	for _, r := range d.GetTraces().GetResourceSpans() {
		if !own(t, r.Resource, r.SchemaUrl) {
			continue
		}
		for _, s := range r.ScopeSpans {
			if s.GetScope().GetName() == otelgrpcScope {
				o = append(o, s.Spans...)
			}
		}
	}
	return
}

// judgeSpans compares spans with the calls they are of; complete is set when all
// of them must be there. It returns the number of calls without a span.
func judgeSpans(t *zv.T, spans []*tracev1.Span, calls []*called, complete bool) (missing int) {
	type id struct{ trace, parent string }
	byParent := map[id]*called{}
	roots := map[string]int{}
	for _, c := range calls {
		if c.trace != "" {
			byParent[id{c.trace, c.parent}] = c
		} else {
			roots[fmt.Sprint(c.name(), c.code)]++
		}
	}
	seen := map[string]bool{}
	for _, s := range spans {
		t.Eval(1)
		tid, sid := hex.EncodeToString(s.TraceId), hex.EncodeToString(s.SpanId)
		if len(s.TraceId) != 16 || len(s.SpanId) != 8 || seen[tid+sid] {
			t.Fail("span-id", "span %s of trace %s (%s) is there twice or has no id", sid, tid, s.Name)
			continue
		}
		seen[tid+sid] = true
		_, code := attrOf(s.Attributes, "rpc.grpc.status_code")
		srv, _ := attrOf(s.Attributes, "rpc.service")
		method, _ := attrOf(s.Attributes, "rpc.method")
		if s.Kind != tracev1.Span_SPAN_KIND_SERVER || s.Name != srv+"/"+method || s.EndTimeUnixNano < s.StartTimeUnixNano {
			t.Fail("span", "a span of a call looks like this: %v", s)
		}
		if p := hex.EncodeToString(s.ParentSpanId); p != "" {
			k := id{tid, p}
			c := byParent[k]
			if c == nil {
				t.Fail("unknown-span", "span %s has a parent %s in trace %s, no call was made in it, or it has another span", s.Name, p, tid)
				continue
			}
			delete(byParent, k)
			start := time.Unix(0, int64(s.StartTimeUnixNano))
			const slack = 2 * time.Second
			if c.name() != s.Name || c.code != code || s.TraceState != c.state || start.Before(c.from.Add(-slack)) || start.After(c.to.Add(slack)) {
				t.Fail("wrong-span", "a call of %s in state %q, ended with %d, made between %s and %s has the span %v", c.name(), c.state, c.code, c.from, c.to, s)
			}
			continue
		}
		roots[fmt.Sprint(s.Name, code)]--
	}
	missing = len(byParent)
	example := ""
	for _, c := range byParent {
		example = c.name()
	}
	for k, n := range roots {
		switch {
		case n < 0:
			t.Fail("unknown-span", "there are %d more spans of %s than calls", -n, k)
		case n > 0:
			missing += n
			example = k
		}
	}
	if complete && missing > 0 && !t.Failed() {
		t.Fail("lost-span", "%d of %d calls have no span, such as one of %s", missing, len(calls), example)
	}
	return
}

// onDisk is the size of the tables and the log of the database.
func onDisk(t *zv.T) (n int64) {
	ls, _ := filepath.Glob(filepath.Join(t.Dir, "data", "db", "*"))
	for _, f := range ls {
		if x := filepath.Ext(f); x == ".sst" || x == ".vlog" {
			i, err := os.Stat(f)
			t.Must(err)
			n += i.Size()
		}
	}
	return n
}

// judgeMetrics compares what the server counted in its last life with what it was asked.
func judgeMetrics(t *zv.T, d *v1.Data, w *watched, since, until time.Time, visible bool, least int64) {
	var size *metricsv1.NumberDataPoint
	type series struct{ srv, method, code string }
	last := map[series]*metricsv1.HistogramDataPoint{}
	names := map[string]bool{}
	var processed *metricsv1.NumberDataPoint
	samples := map[uint64]bool{}
	points := map[string]bool{}
	within := func(start, at uint64) bool {
		return at >= uint64(since.UnixNano()) && at <= uint64(until.UnixNano())
	}
	for _, r := range d.GetMetrics().GetResourceMetrics() {
		if !own(t, r.Resource, r.SchemaUrl) {
			continue
		}
		for _, s := range r.ScopeMetrics {
			for _, m := range s.Metrics {
				for _, p := range m.GetHistogram().GetDataPoints() {
					if !within(p.StartTimeUnixNano, p.TimeUnixNano) || s.GetScope().GetName() != otelgrpcScope || m.Name != "rpc.server.duration" {
						continue
					}
					var k series
					k.srv, _ = attrOf(p.Attributes, "rpc.service")
					k.method, _ = attrOf(p.Attributes, "rpc.method")
					_, c := attrOf(p.Attributes, "rpc.grpc.status_code")
					k.code = fmt.Sprint(c)
					t.Eval(1)
					if id := fmt.Sprint(k, p.TimeUnixNano); points[id] {
						t.Fail("point-twice", "the same collection of %v is there twice", k)
					} else {
						points[id] = true
					}
					samples[p.TimeUnixNano] = true
					if o := last[k]; o == nil || o.TimeUnixNano < p.TimeUnixNano {
						last[k] = p
					}
				}
				for _, p := range append(m.GetSum().GetDataPoints(), m.GetGauge().GetDataPoints()...) {
					if !within(p.StartTimeUnixNano, p.TimeUnixNano) {
						continue
					}
					samples[p.TimeUnixNano] = true
					names[m.Name] = true
					if m.Name == "samples.processed" && s.GetScope().GetName() == "rq" {
						if processed == nil || p.TimeUnixNano > processed.TimeUnixNano {
							processed = p
						}
					}
					if m.Name == "rq.db.size" && (size == nil || p.TimeUnixNano < size.TimeUnixNano) {
						size = p
					}
					if m.Name == "rq.db.size" && (m.Unit != "By" || p.GetAsInt() < 0 || s.GetScope().GetVersion() != version.VERSION) {
						t.Fail("size", "the size of the database is %v of version %s", m, s.GetScope().GetVersion())
					}
				}
			}
		}
	}
	t.Eval(1)
	for _, n := range []string{"rq.db.size", "system.cpu.time", "process.cpu.time", "process.runtime.go.goroutines", "runtime.uptime"} {
		if !names[n] {
			t.Fail("no-metric", "the server has no metric %s of its last life, it has %d others", n, len(names))
		}
	}
	if n := size.GetAsInt(); n < least {
		t.Fail("size", "the database has %d bytes on disk when the server starts, the server says %d", least, n)
	} else if least > 0 {
		t.Count("sizes_compared", 1)
	}
	want := map[series]uint64{}
	for _, c := range w.calls {
		want[series{c.service, c.method, fmt.Sprint(c.code)}]++
	}
	for k, n := range want {
		t.Eval(1)
		if last[k].GetCount() != n {
			t.Fail("wrong-count", "%d calls of %v were made, the server counted %d", n, k, last[k].GetCount())
		}
	}
	for k, p := range last {
		if want[k] == 0 && p.Count > 0 {
			t.Fail("wrong-count", "no call of %v was made, the server counted %d", k, p.Count)
		}
	}
	if visible && w.exports > 0 {
		if n := processed.GetAsInt(); n < int64(w.exports) {
			t.Fail("processed", "%d samples of clients were saved, the server counted %d in all", w.exports, n)
		}
	}
	// spans and metrics of the server are samples too
	if n := processed.GetAsInt(); n > int64(w.exports+2*len(samples)+len(w.calls)+4) {
		t.Fail("processed", "%d samples of clients and at most %d of the server were saved, the server counted %d", w.exports, 2*len(samples)+len(w.calls), n)
	}
}

func propC34() *zv.Prop {
	run := func(t *zv.T) {
		r := t.Rand
		began := time.Now()
		around := func(sig int) *v1.Scan {
			return &v1.Scan{Scope: gen.ScopeOf(sig), TimeRange: &v1.Scan_TimeRange{Start: timestamppb.New(began.Add(-time.Hour)), End: timestamppb.New(time.Now().Add(time.Hour))}}
		}
		var all []*called
		for life := 0; life < 2+r.Intn(2); life++ {
			w := &watched{}
			since := time.Now()
			var env []string
			poll := r.Intn(2) == 0
			if poll {
				env = append(env, fmt.Sprintf("OTEL_BSP_SCHEDULE_DELAY=%d", 20+r.Intn(300)), fmt.Sprintf("OTEL_METRIC_EXPORT_INTERVAL=%d", 150+r.Intn(500)))
			}
			least := onDisk(t)
			s := rqproc.Start(t, t.Dir, env...)
			cc := s.Dial(t)
			scan := func(q *v1.Scan) (d *v1.Data) {
				x := w.tell(r, rqService, "ScanSamples", func(c context.Context) (err error) {
					d, err = v1.NewRQClient(cc).ScanSamples(c, q, grpc.MaxCallRecvMsgSize(1<<30))
					return err
				})
				if x.code != 0 {
					t.Fatal("scan-error", "the server answers with code %d", x.code)
				}
				return d
			}
			if life > 0 { // what it told before the restart, all of it, once
				old := spansOf(t, scan(around(2)))
				var mine []*tracev1.Span
				for _, x := range old {
					if x.StartTimeUnixNano < uint64(since.UnixNano()) {
						mine = append(mine, x)
					}
				}
				judgeSpans(t, mine, all, true)
				if t.Failed() {
					return
				}
			}
			var wg sync.WaitGroup
			for k := 1 + r.Intn(4); k > 0; k-- {
				r := rand.New(rand.NewSource(r.Int63()))
				wg.Add(1)
				go func() {
					defer wg.Done()
					cc := s.Dial(t)
					defer cc.Close()
					for n := 3 + r.Intn(25); n > 0; n-- {
						w.some(t, r, cc)
						if r.Intn(4) == 0 {
							time.Sleep(time.Duration(r.Intn(60)) * time.Millisecond)
						}
					}
				}()
			}
			wg.Wait()
			if t.Failed() {
				return
			}
			if poll { // seen while it runs
				first := append([]*called(nil), w.calls...)
				for i := 0; ; i++ {
					var spans []*tracev1.Span
					for _, x := range spansOf(t, scan(around(2))) {
						if x.StartTimeUnixNano >= uint64(since.UnixNano()) {
							spans = append(spans, x)
						}
					}
					if t.Failed() {
						return
					}
					left := judgeSpans(t, spans, w.calls, false)
					if left <= len(w.calls)-len(first) && judgeSpans(t, only(spans, first), first, false) == 0 {
						t.Count("seen_while_running", len(first))
						break
					}
					if t.Failed() {
						return
					}
					if i > 600 {
						judgeSpans(t, only(spans, first), first, true)
						return
					}
					time.Sleep(100 * time.Millisecond)
				}
			}
			cc.Close()
			time.Sleep(1500 * time.Millisecond) // the server ends a call after the client
			s.Stop(t, []syscall.Signal{syscall.SIGTERM, syscall.SIGINT}[r.Intn(2)])
			until := time.Now()
			all = append(all, w.calls...)

			// another life looks at the metrics, its own calls are none of them
			o := &watched{}
			s = rqproc.Start(t, t.Dir)
			cc = s.Dial(t)
			var d *v1.Data
			x := o.tell(r, rqService, "ScanSamples", func(c context.Context) (err error) {
				d, err = v1.NewRQClient(cc).ScanSamples(c, around(0), grpc.MaxCallRecvMsgSize(1<<30))
				return err
			})
			cc.Close()
			if x.code != 0 {
				t.Fatal("scan-error", "the server answers with code %d", x.code)
			}
			judgeMetrics(t, d, w, since, until, poll, least)
			time.Sleep(500 * time.Millisecond)
			s.Stop(t, syscall.SIGTERM)
			all = append(all, o.calls...)
			if t.Failed() {
				return
			}
			t.Count("calls", len(w.calls))
			t.Distinct(t.Case.Seed, life)
		}
		t.Sample(map[string]any{"calls": len(all)})
	}
	return &zv.Prop{
		ID:       "C34",
		Rule:     "an execution runs the real rq two or three times over one directory, with clients that make calls of every kind, within spans of their own or not, at the same time; oracle: every call has exactly one span with its name, outcome, time and parent, while the server runs and after clean restarts, and the last collection of every life counts exactly the calls of that life. Executions count as distinct by seed and life",
		Families: []zv.Family{{Name: "watched", Quick: 16, Thorough: 160, Run: run}},
	}
}

// only picks the spans that may be of the calls: those of the same parents, and
// of no parent as far as there are such calls.
func only(spans []*tracev1.Span, calls []*called) (o []*tracev1.Span) {
	parents, roots := map[string]bool{}, map[string]int{}
	for _, c := range calls {
		if c.trace != "" {
			parents[c.trace+c.parent] = true
		} else {
			roots[fmt.Sprint(c.name(), c.code)]++
		}
	}
	for _, s := range spans {
		if len(s.ParentSpanId) > 0 {
			if parents[hex.EncodeToString(s.TraceId)+hex.EncodeToString(s.ParentSpanId)] {
				o = append(o, s)
			}
			continue
		}
		_, code := attrOf(s.Attributes, "rpc.grpc.status_code")
		k := fmt.Sprint(s.Name, code)
		if roots[k] > 0 {
			roots[k]--
			o = append(o, s)
		}
	}
	return
}
