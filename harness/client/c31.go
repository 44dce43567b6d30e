package main

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/rand"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/version"
	"github.com/gernest/requiemdb/internal/zverif/gen"
	"github.com/gernest/requiemdb/internal/zverif/kit"
	"github.com/gernest/requiemdb/internal/zverif/rqproc"
	"github.com/gernest/requiemdb/internal/zverif/zv"
	collector_logs "go.opentelemetry.io/proto/otlp/collector/logs/v1"
	collector_metrics "go.opentelemetry.io/proto/otlp/collector/metrics/v1"
	collector_trace "go.opentelemetry.io/proto/otlp/collector/trace/v1"
	commonv1 "go.opentelemetry.io/proto/otlp/common/v1"
	metricsv1 "go.opentelemetry.io/proto/otlp/metrics/v1"
	"google.golang.org/grpc"
	_ "google.golang.org/grpc/encoding/gzip"
	"google.golang.org/protobuf/encoding/protojson"
	"google.golang.org/protobuf/types/known/timestamppb"
	"os"
)

var start = time.Date(2024, 4, 3, 14, 0, 0, 0, time.UTC)

const hours = 5

type exported struct {
	n      int
	sig    int
	d      *v1.Data
	labels map[gen.Label]bool
	hour   time.Time
}

// export sends one document, compressed as its number says.
func export(cc *grpc.ClientConn, d *v1.Data, n int) (err error) {
	var opt []grpc.CallOption
	switch n % 4 {
	case 1:
		opt = append(opt, grpc.UseCompressor("gzip"))
	case 2:
		opt = append(opt, grpc.UseCompressor("zstd"))
	}
	switch e := d.Data.(type) {
	case *v1.Data_Metrics:
		_, err = collector_metrics.NewMetricsServiceClient(cc).Export(ctx, &collector_metrics.ExportMetricsServiceRequest{ResourceMetrics: e.Metrics.ResourceMetrics}, opt...)
	case *v1.Data_Logs:
		_, err = collector_logs.NewLogsServiceClient(cc).Export(ctx, &collector_logs.ExportLogsServiceRequest{ResourceLogs: e.Logs.ResourceLogs}, opt...)
	case *v1.Data_Traces:
		_, err = collector_trace.NewTraceServiceClient(cc).Export(ctx, &collector_trace.ExportTraceServiceRequest{ResourceSpans: e.Traces.ResourceSpans}, opt...)
	}
	return
}

// prelude prints what scripts print of logs and traces.
const prelude = `import { Metrics, Logs, Trace, println } from "@requiemdb/rq";
const hex = (b: any) => { let s = ""; for (let i = 0; i < (b || []).length; i++) s += (b[i] + 256).toString(16).slice(1); return s };
const tag = (r: any) => { const a = (r && r.attributes) || []; for (let i = 0; i < a.length; i++) if (a[i].key == "sample") return a[i].value.GetStringValue(); return "" };
const each = (xs: any, f: any) => { for (let i = 0; i < (xs || []).length; i++) f(xs[i]) };
const logs = (d: any) => each(d.resource_logs, (r: any) => each(r.scope_logs, (s: any) => each(s.log_records, (l: any) =>
  println("L" + JSON.stringify([tag(r.resource), r.schema_url, s.schema_url, s.scope ? s.scope.name : "", l.severity_text, hex(l.trace_id), hex(l.span_id), (l.attributes || []).length])))));
const traces = (d: any) => each(d.resource_spans, (r: any) => each(r.scope_spans, (s: any) => each(s.spans, (l: any) =>
  println("L" + JSON.stringify([tag(r.resource), r.schema_url, s.schema_url, s.scope ? s.scope.name : "", l.name, hex(l.trace_id), hex(l.span_id), (l.attributes || []).length])))));
`

// line is what the prelude prints of a leaf.
func line(l *gen.Leaf) string {
	name, tid, sid := l.Name, []byte(nil), []byte(nil)
	if l.LogMsg != nil {
		name, tid, sid = l.LogMsg.SeverityText, l.LogMsg.TraceId, l.LogMsg.SpanId
	} else {
		tid, sid = l.SpanMsg.TraceId, l.SpanMsg.SpanId
	}
	return fmt.Sprintf("%q", []any{gen.ResTag(l.ResourceMsg), l.ResSchema, l.ScopeSchema, l.ScopeMsg.GetName(), name, hex.EncodeToString(tid), hex.EncodeToString(sid), fmt.Sprint(len(l.Attrs))})
}

// ask2 is one query of a script with what it must print.
type asked struct {
	sig  int
	js   string
	want map[string]int
	n    int
}

var calls = map[v1.Scan_BaseProp]string{
	v1.Scan_RESOURCE_SCHEMA: "resourceSchema", v1.Scan_SCOPE_SCHEMA: "scopeSchema", v1.Scan_SCOPE_NAME: "scopeName", v1.Scan_SCOPE_VERSION: "scopeVersion",
	v1.Scan_NAME: "name", v1.Scan_TRACE_ID: "traceId", v1.Scan_SPAN_ID: "spanId", v1.Scan_PARENT_SPAN_ID: "parentSpanId", v1.Scan_LOGS_LEVEL: "logLevel",
}

var acalls = map[v1.Scan_AttributeProp]string{v1.Scan_RESOURCE_ATTRIBUTES: "resourceAttr", v1.Scan_SCOPE_ATTRIBUTES: "scopeAttr", v1.Scan_ATTRIBUTES: "attr"}

// draw makes a query over what was exported.
func draw(r *rand.Rand, all []*exported) *asked {
	q := &asked{sig: r.Intn(3), want: map[string]int{}}
	var mine []*exported
	for _, e := range all {
		if e.sig == q.sig {
			mine = append(mine, e)
		}
	}
	q.js = "new " + []string{"Metrics", "Logs", "Trace"}[q.sig] + "()"
	w := &gen.Want{Base: map[v1.Scan_BaseProp]map[string]bool{}, Attr: map[v1.Scan_AttributeProp]map[gen.Pair]bool{}}
	// filters: labels of one sample
	need := map[gen.Label]bool{}
	if len(mine) > 0 {
		var ls []gen.Label
		d := mine[r.Intn(len(mine))]
		for _, l := range gen.Leaves(d.d) {
			for x := range gen.LabelsOf(d.d) {
				_ = l
				ls = append(ls, x)
			}
			break
		}
		sortLabels(ls)
		for k := r.Intn(3); k > 0 && len(ls) > 0; k-- {
			l := ls[r.Intn(len(ls))]
			need[l] = true
			if l.Attr {
				p := v1.Scan_AttributeProp(l.Prop)
				q.js += fmt.Sprintf(".%s(%s,%s)", acalls[p], lit(l.Key), lit(l.Val))
				if w.Attr[p] == nil {
					w.Attr[p] = map[gen.Pair]bool{}
				}
				w.Attr[p][gen.Pair{K: l.Key, V: l.Val}] = true
			} else {
				p := v1.Scan_BaseProp(l.Prop)
				q.js += fmt.Sprintf(".%s(%s)", calls[p], lit(l.Key))
				if w.Base[p] == nil {
					w.Base[p] = map[string]bool{}
				}
				w.Base[p][l.Key] = true
			}
		}
	}
	// time: millisecond bounds in and around the exported hours
	now := start.Add(time.Duration(r.Int63n(int64((hours+1)*3600*1000))) * time.Millisecond)
	instant := false
	lo, hi := now, now
	switch r.Intn(6) {
	case 0:
		instant = true
		lo = now.Add(-15 * time.Minute)
	case 1:
		q.js += ".today()"
		lo = day(now.In(time.Local)) // of where the script runs
	case 2:
		q.js += ".thisMonth()"
		lo = time.Date(2024, 4, 1, 0, 0, 0, 0, time.Local)
	case 3:
		q.js += ".thisYear()"
		lo = time.Date(2024, 1, 1, 0, 0, 0, 0, time.Local)
	case 4:
		d := time.Duration(1+r.Intn(5*3600)) * time.Second
		if r.Intn(4) == 0 { // everything, ever
			d = time.Duration(500000+r.Intn(2000000)) * time.Hour
		}
		q.js += fmt.Sprintf(".ago(%q)", d.String())
		lo = now.Add(-d)
	default:
		q.js += ".latest()"
		lo = now.Add(-15 * time.Minute)
	}
	q.js += fmt.Sprintf(".now(new Date(%d))", now.UnixMilli())
	w.Start, w.End = uint64(max(0, lo.UnixNano())), uint64(hi.UnixNano())
	if lo.Before(time.Unix(0, 0)) {
		w.Start = 0
	}
	var hit []*exported
	for _, e := range mine {
		ok := e.hour.Before(hi) && e.hour.Add(time.Hour).After(lo)
		for l := range need {
			ok = ok && e.labels[l]
		}
		if ok {
			hit = append(hit, e)
		}
	}
	switch {
	case instant:
		if len(hit) > 1 {
			hit = hit[len(hit)-1:]
		}
		if len(need) == 0 { // the whole sample
			w.Start, w.End = 0, ^uint64(0)
		}
	case r.Intn(3) == 0:
		n := 1 + r.Intn(4)
		q.js += fmt.Sprintf(".limit(%d)", n)
		rev := r.Intn(2) == 0
		if rev {
			q.js += ".reverse()"
		}
		if len(hit) > n {
			if rev {
				hit = hit[len(hit)-n:]
			} else {
				hit = hit[:n]
			}
		}
	}
	for _, e := range hit {
		for _, l := range gen.Leaves(e.d) {
			if w.Accept(l) {
				if q.sig == 0 {
					q.want[l.Key()]++
				} else {
					q.want[line(l)]++
				}
				q.n++
			}
		}
	}
	return q
}

func sortLabels(ls []gen.Label) {
	less := func(a, b gen.Label) bool { return fmt.Sprint(a) < fmt.Sprint(b) }
	for i := range ls {
		for j := i; j > 0 && less(ls[j], ls[j-1]); j-- {
			ls[j], ls[j-1] = ls[j-1], ls[j]
		}
	}
}

// parse reads what a script printed for one query.
func (q *asked) parse(out string) (map[string]int, error) {
	if q.sig == 0 {
		var md metricsv1.MetricsData
		if err := protojson.Unmarshal([]byte(out), &md); err != nil {
			return nil, err
		}
		return gen.Multiset(&v1.Data{Data: &v1.Data_Metrics{Metrics: &md}}), nil
	}
	o := map[string]int{}
	for _, l := range strings.Split(strings.TrimSpace(out), "\n") {
		if l == "" {
			continue
		}
		var xs []any
		if err := json.Unmarshal([]byte(strings.TrimPrefix(l, "L")), &xs); err != nil || len(xs) != 8 {
			return nil, fmt.Errorf("%v in %q", err, l)
		}
		xs[7] = fmt.Sprint(xs[7])
		o[fmt.Sprintf("%q", xs)]++
	}
	return o, nil
}

func propC31() *zv.Prop {
	session := func(t *zv.T) {
		r := t.Rand
		begin := rqproc.Start
		if r.Intn(3) == 0 {
			begin = rqproc.StartHome
		}
		s := begin(t, t.Dir)
		if out, err := exec.Command(os.Getenv("ZV_RQ"), "version", "--remoteAddress", s.Addr).Output(); err != nil || string(out) != version.VERSION {
			t.Fail("version", "rq version says %q (%v), the server is %s", out, err, version.VERSION)
		}
		t.Eval(1)
		cc := s.Dial(t)
		var all []*exported
		total := 12 + r.Intn(20)
		hour := start
		for n := 1; n <= total; n++ {
			if r.Intn(total) < hours && hour.Before(start.Add((hours-1)*time.Hour)) {
				hour = hour.Add(time.Hour)
			}
			lo := uint64(hour.UnixNano())
			g := gen.New(r, gen.Opt{Vocab: 3, Wild: r.Intn(3) == 0, Max: 2, AtLeastOne: true, TimeLo: lo, TimeHi: lo + uint64(time.Hour)})
			sig := r.Intn(3)
			d := g.Data(sig)
			gen.Tag(d, n)
			if len(gen.Leaves(d)) == 0 {
				continue
			}
			if err := export(cc, d, n); err != nil {
				t.Fatal("export-error", "%v", err)
			}
			all = append(all, &exported{n: n, sig: sig, d: kit.Clone(d), labels: gen.LabelsOf(d), hour: hour})
		}
		wait := func(cc *grpc.ClientConn) {
			rq := v1.NewRQClient(cc)
			for i := 0; ; i++ {
				seen := map[string]bool{}
				for sig := 0; sig < 3; sig++ {
					d, err := rq.ScanSamples(ctx, &v1.Scan{Scope: gen.ScopeOf(sig), TimeRange: &v1.Scan_TimeRange{Start: timestamppb.New(start), End: timestamppb.New(start.Add(hours * time.Hour))}}, grpc.UseCompressor("zstd"))
					if err != nil {
						t.Fatal("scan-error", "%v", err)
					}
					for k := range gen.ByTag(d) {
						seen[k] = true
					}
				}
				missing := 0
				for _, e := range all {
					if !seen[fmt.Sprint("sample-", e.n)] {
						missing++
					}
				}
				if missing == 0 {
					return
				}
				if i > 1000 {
					t.Fatal("never-visible", "%d of %d exports are not visible after 1000 flush intervals", missing, len(all))
				}
				time.Sleep(30 * time.Millisecond)
			}
		}
		wait(cc)
		cc.Close()
		scripts := func(where string) {
			var wg sync.WaitGroup
			for p := 0; p < 2; p++ {
				r := rand.New(rand.NewSource(t.Rand.Int63()))
				wg.Add(1)
				p := p
				go func() {
					defer wg.Done()
					defer func() {
						if e := recover(); e != nil && !t.Failed() {
							t.Fail("panic", "%v", e)
						}
					}()
					for k := 0; k < 2; k++ {
						var qs []*asked
						src := prelude
						for i := 0; i < 12; i++ {
							q := draw(r, all)
							qs = append(qs, q)
							render := []string{"Metrics.renderJSON(%s.query() as any, undefined as any)", "logs(%s.query())", "traces(%s.query())"}[q.sig]
							src += fmt.Sprintf(render, q.js) + ";\nprintln('\\n@@@');\n"
						}
						f := filepath.Join(t.Dir, fmt.Sprintf("s%d.ts", p))
						t.Must(os.WriteFile(f, []byte(src), 0o644))
						out, errs, ok, _ := query(t, t.Dir, f, s.Addr, 0)
						if !ok {
							t.Fatal("script-error", "%s: %s\n%s", where, clip(errs), clip(src))
						}
						parts := strings.Split(out, "\n@@@\n")
						if len(parts) != len(qs)+1 {
							t.Fatal("output", "%s: %d answers for %d queries: %s", where, len(parts)-1, len(qs), clip(out))
						}
						for i, q := range qs {
							have, err := q.parse(parts[i])
							t.Eval(1)
							if err != nil {
								t.Fatal("output", "%s: %s printed something unreadable: %v", where, q.js, err)
							}
							if x := gen.DiffMultiset(q.want, have); x != "" {
								t.Fatal("wrong-answer", "%s: %s: %s", where, q.js, x)
							}
							if q.n > 0 {
								t.Distinct(q.js, parts[i])
								t.Count("non_empty_answers", 1)
								t.Count("entries_printed", q.n)
								t.Sample(map[string]any{"query": q.js, "entries": q.n, "exports": len(all)})
							}
						}
					}
				}()
			}
			wg.Wait()
		}
		scripts("first server")
		if r.Intn(2) == 0 && !t.Failed() {
			s.Stop(t, syscall.SIGTERM)
			s = begin(t, t.Dir)
			scripts("after a restart")
			t.Count("restarts", 1)
		}
		s.Stop(t, syscall.SIGINT)
	}
	// large asks for an answer of many megabytes.
	large := func(t *zv.T) {
		r := t.Rand
		s := rqproc.Start(t, t.Dir)
		cc := s.Dial(t)
		lens := map[string]int{}
		total := 0
		for n := 1; n <= 6+r.Intn(5); n++ {
			lo := uint64(start.UnixNano())
			g := gen.New(r, gen.Opt{Vocab: 3, Max: 2, AtLeastOne: true, TimeLo: lo, TimeHi: lo + uint64(time.Hour)})
			d := g.Data(1)
			gen.Tag(d, n)
			ls := gen.Leaves(d)
			if len(ls) == 0 {
				continue
			}
			b := make([]byte, (700+r.Intn(800))<<9)
			r.Read(b)
			body := hex.EncodeToString(b)
			ls[0].LogMsg.Body = &commonv1.AnyValue{Value: &commonv1.AnyValue_StringValue{StringValue: body}}
			if err := export(cc, d, n); err != nil {
				t.Fatal("export-error", "%v", err)
			}
			for _, l := range ls {
				lens[fmt.Sprintf("%s %d", gen.ResTag(l.ResourceMsg), len(l.LogMsg.GetBody().GetStringValue()))]++
			}
			total += len(body)
		}
		// what was accepted before a shutdown is there after it
		cc.Close()
		s.Stop(t, syscall.SIGTERM)
		s = rqproc.Start(t, t.Dir)
		f := filepath.Join(t.Dir, "large.ts")
		t.Must(os.WriteFile(f, []byte(prelude+`each((new Logs().ago("1h").now(new Date(`+fmt.Sprint(start.Add(time.Hour).UnixMilli())+`)).query() as any).resource_logs, (r: any) => each(r.scope_logs, (s: any) => each(s.log_records, (l: any) => {
  const b = l.body ? l.body.GetStringValue() : ""; println(tag(r.resource) + " " + b.length)})));
`), 0o644))
		out, errs, ok, _ := query(t, t.Dir, f, s.Addr, 0)
		t.Eval(1)
		if !ok {
			t.Fatal("script-error", "an answer of %d bytes: %s", total, clip(errs))
		}
		have := map[string]int{}
		for _, l := range strings.Split(strings.TrimSpace(out), "\n") {
			have[l]++
		}
		if x := gen.DiffMultiset(lens, have); x != "" {
			t.Fatal("wrong-answer", "an answer of %d bytes: %s", total, x)
		}
		t.Distinct("large", total)
		t.Count("large_answer_bytes", total)
		s.Stop(t, syscall.SIGINT)
	}
	return &zv.Prop{
		ID:   "C31",
		Rule: "an execution exports generated metrics, logs and traces over gRPC to the real rq server and runs generated scripts (filters by any label, relative ranges at a fixed evaluation time, instants, limits, reverse) through the real rq query binary, on two processes at a time and across a restart, and with answers of several megabytes; queries with a non-empty answer count as distinct by query and printed answer. The oracle is the list of exported documents",
		Assume: []string{
			"each exported document lies within one hour (a sample is indexed under its earliest time)",
		},
		Families: []zv.Family{
			{Name: "session", Quick: 30, Thorough: 600, Run: session},
			{Name: "large", Quick: 2, Thorough: 24, Run: large},
		},
	}
}
