package main

import (
	"context"
	"fmt"
	"math/rand"
	"os"
	"sync"
	"time"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/self"
	"github.com/gernest/requiemdb/internal/zverif/gen"
	"github.com/gernest/requiemdb/internal/zverif/zv"
	"go.opentelemetry.io/otel"
	"go.opentelemetry.io/otel/attribute"
	"go.opentelemetry.io/otel/codes"
	"go.opentelemetry.io/otel/metric"
	"go.opentelemetry.io/otel/sdk/instrumentation"
	"go.opentelemetry.io/otel/sdk/resource"
	sdktrace "go.opentelemetry.io/otel/sdk/trace"
	"go.opentelemetry.io/otel/sdk/trace/tracetest"
	"go.opentelemetry.io/otel/trace"
	collector_trace "go.opentelemetry.io/proto/otlp/collector/trace/v1"
	commonv1 "go.opentelemetry.io/proto/otlp/common/v1"
	resourcev1 "go.opentelemetry.io/proto/otlp/resource/v1"
	tracev1 "go.opentelemetry.io/proto/otlp/trace/v1"
)

func newRand(seed int64) *rand.Rand { return rand.New(rand.NewSource(seed)) }

type spanSink struct {
	mu   sync.Mutex
	got  []*collector_trace.ExportTraceServiceRequest
	sums []string
	fail bool
	collector_trace.UnimplementedTraceServiceServer
}

func (s *spanSink) Export(_ context.Context, r *collector_trace.ExportTraceServiceRequest) (*collector_trace.ExportTraceServiceResponse, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.fail {
		return nil, fmt.Errorf("full")
	}
	s.got, s.sums = append(s.got, r), append(s.sums, string(gen.Bytes(r)))
	return &collector_trace.ExportTraceServiceResponse{}, nil
}

func (s *spanSink) leaves(t *zv.T) map[string]int {
	o := map[string]int{}
	for i, r := range s.got {
		if string(gen.Bytes(r)) != s.sums[i] {
			t.Fatal("changed-later", "spans changed after they were handed over")
		}
		rs := map[string]bool{}
		for _, x := range r.ResourceSpans {
			k := gen.ResKey(x.SchemaUrl, x.Resource)
			if rs[k] {
				t.Fatal("grouping", "resource listed twice in a document: %v", x.Resource)
			}
			rs[k] = true
			ss := map[string]bool{}
			for _, y := range x.ScopeSpans {
				k := gen.ScopeKey(y.SchemaUrl, y.Scope)
				if ss[k] || len(y.Spans) == 0 {
					t.Fatal("grouping", "scope listed twice or without spans: %v", y)
				}
				ss[k] = true
			}
		}
		for k, n := range gen.Multiset(traces(r.ResourceSpans)) {
			o[k] += n
		}
	}
	return o
}

func traces(rs []*tracev1.ResourceSpans) *v1.Data {
	return &v1.Data{Data: &v1.Data_Traces{Traces: &tracev1.TracesData{ResourceSpans: rs}}}
}

func (g g) ctx() (trace.SpanContext, string) {
	var c trace.SpanContextConfig
	if g.r.Intn(6) > 0 {
		g.r.Read(c.TraceID[:])
		g.r.Read(c.SpanID[:])
	}
	switch g.r.Intn(12) {
	case 0:
		c.TraceID = trace.TraceID{} // one without the other
	case 1:
		c.SpanID = trace.SpanID{}
	case 2:
		c.TraceID[0], c.SpanID[0], c.SpanID[1] = 0, 0, 0
	case 3:
		c.TraceID, c.SpanID = trace.TraceID{15: 1}, trace.SpanID{7: byte(g.r.Intn(3))}
	}
	c.Remote, c.TraceFlags = g.r.Intn(2) == 0, trace.TraceFlags(g.r.Intn(4))
	state := ""
	if g.r.Intn(3) == 0 {
		state = fmt.Sprintf("a=%d,b=%d", g.r.Intn(9), g.r.Intn(9))
		c.TraceState, _ = trace.ParseTraceState(state)
	}
	return trace.NewSpanContext(c), state
}

func (g g) when() (time.Time, uint64) {
	n := g.r.Int63n(4e18)
	return time.Unix(0, n).In(time.FixedZone("y", g.r.Intn(9000))), uint64(n)
}

// span draws a span and what it is in OTLP.
func (g g) span() (tracetest.SpanStub, *tracev1.Span) {
	c, state := g.ctx()
	tid, sid := c.TraceID(), c.SpanID()
	s := tracetest.SpanStub{Name: g.word("s"), SpanContext: c}
	p := &tracev1.Span{Name: s.Name, TraceId: tid[:], SpanId: sid[:], TraceState: state}
	if g.r.Intn(2) == 0 {
		pc, _ := g.ctx()
		s.Parent = pc
		if id := pc.SpanID(); id.IsValid() {
			p.ParentSpanId = id[:]
		}
	}
	kinds := map[trace.SpanKind]tracev1.Span_SpanKind{
		trace.SpanKindUnspecified: tracev1.Span_SPAN_KIND_UNSPECIFIED, trace.SpanKindInternal: tracev1.Span_SPAN_KIND_INTERNAL,
		trace.SpanKindServer: tracev1.Span_SPAN_KIND_SERVER, trace.SpanKindClient: tracev1.Span_SPAN_KIND_CLIENT,
		trace.SpanKindProducer: tracev1.Span_SPAN_KIND_PRODUCER, trace.SpanKindConsumer: tracev1.Span_SPAN_KIND_CONSUMER}
	s.SpanKind = trace.SpanKind(g.r.Intn(6))
	p.Kind = kinds[s.SpanKind]
	s.StartTime, p.StartTimeUnixNano = g.when()
	s.EndTime, p.EndTimeUnixNano = g.when()
	s.Attributes, p.Attributes = g.kvs()
	for i := g.few(3); i > 0; i-- {
		a, pa := g.kvs()
		t, pt := g.when()
		n, d := g.word("e"), g.r.Intn(5)
		s.Events = append(s.Events, sdktrace.Event{Name: n, Attributes: a, DroppedAttributeCount: d, Time: t})
		p.Events = append(p.Events, &tracev1.Span_Event{Name: n, Attributes: pa, DroppedAttributesCount: uint32(d), TimeUnixNano: pt})
	}
	for i := g.few(3); i > 0; i-- {
		a, pa := g.kvs()
		lc, lstate := g.ctx()
		d := g.r.Intn(5)
		lt, ls := lc.TraceID(), lc.SpanID()
		s.Links = append(s.Links, sdktrace.Link{SpanContext: lc, Attributes: a, DroppedAttributeCount: d})
		p.Links = append(p.Links, &tracev1.Span_Link{TraceId: lt[:], SpanId: ls[:], TraceState: lstate, Attributes: pa, DroppedAttributesCount: uint32(d)})
	}
	codesOf := map[codes.Code]tracev1.Status_StatusCode{codes.Unset: tracev1.Status_STATUS_CODE_UNSET, codes.Ok: tracev1.Status_STATUS_CODE_OK, codes.Error: tracev1.Status_STATUS_CODE_ERROR}
	s.Status = sdktrace.Status{Code: codes.Code(g.r.Intn(3)), Description: g.word("d")}
	p.Status = &tracev1.Status{Code: codesOf[s.Status.Code], Message: s.Status.Description}
	s.DroppedAttributes, s.DroppedEvents, s.DroppedLinks = g.r.Intn(4), g.r.Intn(4), g.r.Intn(4)
	p.DroppedAttributesCount, p.DroppedEventsCount, p.DroppedLinksCount = uint32(s.DroppedAttributes), uint32(s.DroppedEvents), uint32(s.DroppedLinks)
	return s, p
}

func convertSpans(t *zv.T) {
	g := g{r: t.Rand}
	type res struct {
		r *resource.Resource
		p *tracev1.ResourceSpans
	}
	type scope struct {
		s instrumentation.Scope
		p *tracev1.ScopeSpans
	}
	var rs []res
	for i := 0; i < 1+g.r.Intn(3); i++ {
		a, pa := g.nonan().set()
		a = attribute.NewSet(append(a.ToSlice(), attribute.Int("zz", i))...)
		pa = append(pa, &commonv1.KeyValue{Key: "zz", Value: &commonv1.AnyValue{Value: &commonv1.AnyValue_IntValue{IntValue: int64(i)}}})
		sc := g.word("schema")
		rs = append(rs, res{resource.NewWithAttributes(sc, a.ToSlice()...), &tracev1.ResourceSpans{Resource: &resourcev1.Resource{Attributes: pa}, SchemaUrl: sc}})
	}
	var ss []scope
	for i := 0; i < 1+g.r.Intn(4); i++ {
		s := instrumentation.Scope{Name: g.word("n"), Version: g.word("v"), SchemaURL: g.word("s")}
		p := &tracev1.ScopeSpans{Scope: &commonv1.InstrumentationScope{Name: s.Name, Version: s.Version}, SchemaUrl: s.SchemaURL}
		if g.r.Intn(5) == 0 {
			s, p = instrumentation.Scope{}, &tracev1.ScopeSpans{}
		}
		ss = append(ss, scope{s, p})
	}
	want := map[string]int{}
	var spans []sdktrace.ReadOnlySpan
	n := g.r.Intn(9)
	if g.r.Intn(400) == 0 {
		n = 500 + g.r.Intn(1500)
	}
	for i := 0; i < n; i++ {
		r, sc := rs[g.r.Intn(len(rs))], ss[g.r.Intn(len(ss))]
		s, p := g.span()
		s.Resource, s.InstrumentationLibrary = r.r, sc.s
		if g.r.Intn(4) == 0 { // an equal one
			s.Resource = resource.NewWithAttributes(r.r.SchemaURL(), r.r.Attributes()...)
		}
		if g.r.Intn(9) == 0 {
			spans = append(spans, nil)
		}
		spans = append(spans, s.Snapshot())
		for k, n := range gen.Multiset(traces([]*tracev1.ResourceSpans{{Resource: r.p.Resource, SchemaUrl: r.p.SchemaUrl,
			ScopeSpans: []*tracev1.ScopeSpans{{Scope: sc.p.Scope, SchemaUrl: sc.p.SchemaUrl, Spans: []*tracev1.Span{p}}}}})) {
			want[k] += n
		}
	}
	s := &spanSink{}
	if err := (&self.Trace{Collector: s}).ExportSpans(context.Background(), spans); err != nil {
		t.Fatal("export", "exporting spans: %v", err)
	}
	t.Eval(1)
	if d := gen.DiffMultiset(want, s.leaves(t)); d != "" {
		t.Fatal("converted", "spans of the server changed: %s", d)
	}
	s.fail = true
	if err := (&self.Trace{Collector: s}).ExportSpans(context.Background(), spans); err == nil {
		t.Fatal("refused", "the collector refused and the export succeeded")
	}
	t.Count("spans", n)
	if n > 0 {
		t.Distinct(fmt.Sprint(want))
	}
}

// whole sets telemetry of the server up as rq does, makes spans and
// measurements from several goroutines, shuts down and looks at what arrived.
func whole(t *zv.T) {
	r := t.Rand
	os.Setenv("OTEL_BSP_SCHEDULE_DELAY", fmt.Sprint(1+r.Intn(40)))
	os.Setenv("OTEL_BSP_MAX_EXPORT_BATCH_SIZE", fmt.Sprint(1+r.Intn(60)))
	ms, ts := &sink{}, &spanSink{}
	ctx := context.Background()
	sd, err := self.Setup(ctx, ms, ts)
	t.Must(err)
	name := fmt.Sprint("scope", r.Intn(3))
	tr := otel.Tracer(name, trace.WithInstrumentationVersion("v9"), trace.WithSchemaURL("http://t"))
	c, err := self.Meter().Int64Counter("made")
	t.Must(err)
	want := map[string]int{}
	var mu sync.Mutex
	var wg sync.WaitGroup
	total := 0
	for w := 0; w < 1+r.Intn(4); w++ {
		seed := r.Int63()
		n := r.Intn(100)
		total += n
		wg.Add(1)
		go func() {
			defer wg.Done()
			g := g{r: newRand(seed), sdk: true}
			for i := 0; i < n; i++ {
				a, pa := g.kvs()
				t0, p0 := g.when()
				t1, p1 := t0.Add(time.Second), p0+1e9
				n := fmt.Sprint("w", i)
				cc, s := tr.Start(ctx, n, trace.WithAttributes(a...), trace.WithTimestamp(t0), trace.WithSpanKind(trace.SpanKindClient))
				_, child := tr.Start(cc, n+"-child", trace.WithTimestamp(t0))
				child.AddEvent("ev", trace.WithTimestamp(t1), trace.WithAttributes(a...))
				child.SetStatus(codes.Error, "bad")
				child.End(trace.WithTimestamp(t1))
				s.End(trace.WithTimestamp(t1))
				tid, sid, kid := s.SpanContext().TraceID(), s.SpanContext().SpanID(), child.SpanContext().SpanID()
				ps := []*tracev1.Span{{Name: n, TraceId: tid[:], SpanId: sid[:], Kind: tracev1.Span_SPAN_KIND_CLIENT, Attributes: pa, StartTimeUnixNano: p0, EndTimeUnixNano: p1, Status: &tracev1.Status{}},
					{Name: n + "-child", TraceId: tid[:], SpanId: kid[:], ParentSpanId: sid[:], Kind: tracev1.Span_SPAN_KIND_INTERNAL, StartTimeUnixNano: p0, EndTimeUnixNano: p1,
						Status: &tracev1.Status{Code: tracev1.Status_STATUS_CODE_ERROR, Message: "bad"},
						Events: []*tracev1.Span_Event{{Name: "ev", TimeUnixNano: p1, Attributes: pa}}}}
				c.Add(ctx, 1, metric.WithAttributes(attribute.String("by", "check")))
				mu.Lock()
				for _, p := range ps {
					for _, l := range gen.Leaves(traces([]*tracev1.ResourceSpans{{ScopeSpans: []*tracev1.ScopeSpans{{Scope: &commonv1.InstrumentationScope{Name: name, Version: "v9"}, SchemaUrl: "http://t", Spans: []*tracev1.Span{p}}}}})) {
						want[l.Scope+l.Point]++
					}
				}
				mu.Unlock()
				if g.r.Intn(20) == 0 {
					time.Sleep(time.Duration(g.r.Intn(3000)) * time.Microsecond)
				}
			}
		}()
	}
	wg.Wait()
	if err := sd.Shutdown(ctx); err != nil {
		t.Fatal("shutdown", "shutting telemetry down: %v", err)
	}
	ts.leaves(t)
	got := map[string]int{}
	for _, r := range ts.got {
		for _, l := range gen.Leaves(traces(r.ResourceSpans)) {
			if l.ResSchema != self.Resource.SchemaURL() {
				t.Fatal("resource", "span of resource %v (%q)", l.ResourceMsg, l.ResSchema)
			}
			ok := false
			for _, a := range l.ResourceMsg.GetAttributes() {
				ok = ok || a.Key == "service.name" && a.Value.GetStringValue() == "requiemdb"
			}
			if !ok {
				t.Fatal("resource", "span of resource %v", l.ResourceMsg)
			}
			got[l.Scope+l.Point]++
		}
	}
	t.Eval(1)
	if d := gen.DiffMultiset(want, got); d != "" {
		t.Fatal("spans", "after shutdown the collector has other spans than were made: %s", d)
	}
	sum, host := int64(-1), 0
	for _, r := range ms.got {
		for _, rm := range r.ResourceMetrics {
			for _, sm := range rm.ScopeMetrics {
				for _, m := range sm.Metrics {
					if sm.Scope.Name == "rq" && m.Name == "made" {
						for _, p := range m.GetSum().GetDataPoints() {
							sum = p.GetAsInt()
						}
					} else {
						host++
					}
				}
			}
		}
	}
	t.Eval(1)
	if total > 0 && sum != int64(total) {
		t.Fatal("counter", "after shutdown the collector was told of %d, want %d", sum, total)
	}
	if host == 0 {
		t.Fatal("counter", "no metrics of the host and the runtime were told")
	}
	t.Count("spans", 2*total)
	t.Count("exports", len(ts.got))
	if total > 0 {
		t.Distinct(len(ts.got), total)
	}
	t.Sample(map[string]any{"spans": 2 * total, "exports": len(ts.got)})
}

func propC26() *zv.Prop {
	return &zv.Prop{
		ID:     "C26",
		Rule:   "an execution either converts generated spans (several resources and scopes, missing spans, links, events, invalid parents) through the server's exporter and compares them with the OTLP spans generated beside them, or sets telemetry up as the server does, makes spans and measurements from 1-4 goroutines and compares what the collectors have after shutdown with what was made. Span sets count as distinct by content",
		Assume: []string{"attribute values of the sdk's types", "no NaN among attributes of resources"},
		Families: []zv.Family{
			{Name: "convert", Quick: 48000, Thorough: 400000, Run: convertSpans},
			{Name: "whole", Quick: 1200, Thorough: 8000, Run: whole},
		},
	}
}
