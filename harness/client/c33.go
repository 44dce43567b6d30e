package main

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"sort"
	"strconv"
	"strings"
	"sync"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/js"
	"github.com/gernest/requiemdb/internal/render"
	"github.com/gernest/requiemdb/internal/zverif/gen"
	"github.com/gernest/requiemdb/internal/zverif/kit"
	"github.com/gernest/requiemdb/internal/zverif/zv"
	logsv1 "go.opentelemetry.io/proto/otlp/logs/v1"
	metricsv1 "go.opentelemetry.io/proto/otlp/metrics/v1"
	tracev1 "go.opentelemetry.io/proto/otlp/trace/v1"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
)

func getter(fd protoreflect.FieldDescriptor) string {
	var b strings.Builder
	b.WriteString("Get")
	for _, w := range strings.Split(string(fd.Name()), "_") {
		b.WriteString(strings.ToUpper(w[:1]) + w[1:])
	}
	return b.String()
}

// real oneofs are read by getters, everything else by its name.
func oneof(fd protoreflect.FieldDescriptor) bool {
	o := fd.ContainingOneof()
	return o != nil && !o.IsSynthetic()
}

// reader writes the script functions which read md and all it is made of.
func reader(r *rand.Rand, md protoreflect.MessageDescriptor, done map[protoreflect.FullName]bool, out *strings.Builder) {
	if done[md.FullName()] {
		return
	}
	done[md.FullName()] = true
	var body strings.Builder
	fs := md.Fields()
	order := r.Perm(fs.Len())
	for _, i := range order {
		fd := fs.Get(i)
		acc := "m." + string(fd.Name())
		if oneof(fd) {
			acc = "m." + getter(fd) + "()"
		}
		path := fmt.Sprintf("p + %q", "."+string(fd.Name()))
		item := scalarJS(fd)
		if fd.Message() != nil {
			reader(r, fd.Message(), done, out)
			item = "r" + string(fd.Message().Name())
		}
		switch {
		case fd.IsList():
			each := []string{"each1", "each2", "each3", "each4"}[r.Intn(4)]
			fmt.Fprintf(&body, "  %s(%s, %s, %s);\n", each, path, acc, item)
		case fd.Message() != nil:
			fmt.Fprintf(&body, "  { const x = %s; if (x) %s(%s, x); else put(%s, '-', ''); }\n", acc, item, path, path)
		case fd.HasPresence() && !oneof(fd):
			fmt.Fprintf(&body, "  { const x = %s; if (x === undefined || x === null) put(%s, '-', ''); else %s(%s, x); }\n", acc, path, item, path)
		default:
			fmt.Fprintf(&body, "  %s(%s, %s);\n", item, path, acc)
		}
	}
	fmt.Fprintf(out, "const r%s = (p: string, m: any) => {\n%s};\n", md.Name(), body.String())
}

func scalarJS(fd protoreflect.FieldDescriptor) string {
	switch fd.Kind() {
	case protoreflect.StringKind:
		return "str"
	case protoreflect.BytesKind:
		return "raw"
	case protoreflect.BoolKind:
		return "bool"
	case protoreflect.EnumKind:
		return "enm"
	}
	return "num"
}

const readers = `import { Metrics, Logs, Trace, println, SpanKind, StatusCode, AggregationTemporality } from "@requiemdb/rq";
const put = (p: string, k: string, v: string) => println(p + "\t" + k + "\t" + v);
const str = (p: string, v: any) => put(p, "s", JSON.stringify(v));
const f64 = new Float64Array(1), u32 = new Uint32Array(f64.buffer);
const num = (p: string, v: any) => { f64[0] = v * 1; put(p, "n", u32[0] + "," + u32[1] + " " + String(v * 1)) };
const bool = (p: string, v: any) => put(p, "b", v === true ? "true" : v === false ? "false" : "neither");
const enm = (p: string, v: any) => num(p, Number(v));
const raw = (p: string, v: any) => { let s = ""; for (let i = 0; i < (v ? v.length : 0); i++) s += (v[i] + 256).toString(16).slice(1); put(p, "x", s) };
const each1 = (p: string, xs: any, f: any) => { put(p, "#", String(xs.length)); xs.forEach((x: any, i: number) => f(p + "[" + i + "]", x)) };
const each2 = (p: string, xs: any, f: any) => { put(p, "#", String(xs.length)); let i = 0; for (const x of xs) f(p + "[" + (i++) + "]", x) };
const each3 = (p: string, xs: any, f: any) => { put(p, "#", String(xs.length)); for (let i = 0; i < xs.length; i++) f(p + "[" + i + "]", xs[i]) };
const each4 = (p: string, xs: any, f: any) => { put(p, "#", String(xs.map((x: any) => x).length)); xs.slice(0).map((x: any, i: number) => f(p + "[" + i + "]", x)) };
`

// facts is what the readers must print of m.
func facts(p string, m protoreflect.Message, o map[string]any) {
	fs := m.Descriptor().Fields()
	for i := 0; i < fs.Len(); i++ {
		fd := fs.Get(i)
		at := p + "." + string(fd.Name())
		switch {
		case fd.IsList():
			l := m.Get(fd).List()
			o[at] = length(l.Len())
			for j := 0; j < l.Len(); j++ {
				k := fmt.Sprintf("%s[%d]", at, j)
				if fd.Message() != nil {
					facts(k, l.Get(j).Message(), o)
				} else {
					o[k] = scalar(fd, l.Get(j))
				}
			}
		case fd.Message() != nil:
			if !m.Has(fd) {
				o[at] = nil
			} else {
				facts(at, m.Get(fd).Message(), o)
			}
		case fd.HasPresence() && !oneof(fd) && !m.Has(fd):
			o[at] = nil
		default:
			o[at] = scalar(fd, m.Get(fd))
		}
	}
}

type length int

func scalar(fd protoreflect.FieldDescriptor, v protoreflect.Value) any {
	switch fd.Kind() {
	case protoreflect.EnumKind:
		return float64(v.Enum())
	case protoreflect.BytesKind:
		return v.Bytes()
	case protoreflect.StringKind:
		return v.String()
	case protoreflect.BoolKind:
		return v.Bool()
	}
	switch x := v.Interface().(type) {
	case float64:
		return x
	case float32:
		return float64(x)
	case int64:
		return float64(x)
	case uint64:
		return float64(x)
	case int32:
		return float64(x)
	case uint32:
		return float64(x)
	}
	panic(fd.FullName())
}

// agrees says whether a printed value is the one of the document.
func agrees(want any, kind, got string) bool {
	switch w := want.(type) {
	case nil:
		return kind == "-"
	case length:
		return kind == "#" && got == strconv.Itoa(int(w))
	case string:
		var s string
		return kind == "s" && json.Unmarshal([]byte(got), &s) == nil && s == w
	case []byte:
		return kind == "x" && got == hex.EncodeToString(w)
	case bool:
		return kind == "b" && got == strconv.FormatBool(w)
	case float64:
		// the bits of the number: goja's texts of numbers can be off by the last one
		var lo, hi uint32
		_, err := fmt.Sscanf(got, "%d,%d", &lo, &hi)
		g := math.Float64frombits(uint64(hi)<<32 | uint64(lo))
		return kind == "n" && err == nil && (g == w || math.IsNaN(g) && math.IsNaN(w))
	}
	return false
}

func rootOf(d *v1.Data, sig int) protoreflect.Message {
	switch sig {
	case 0:
		return d.GetMetrics().ProtoReflect()
	case 1:
		return d.GetLogs().ProtoReflect()
	}
	return d.GetTraces().ProtoReflect()
}

func bare(sig int) protoreflect.Message {
	return [...]protoreflect.Message{(&metricsv1.MetricsData{}).ProtoReflect(), (&logsv1.LogsData{}).ProtoReflect(), (&tracev1.TracesData{}).ProtoReflect()}[sig]
}

func propC33() *zv.Prop {
	classes := []string{"Metrics", "Logs", "Trace"}
	read := func(t *zv.T, wild, large bool) {
		r := t.Rand
		opt := gen.Opt{Vocab: 3, Max: 2 + r.Intn(2), Wild: wild, AtLeastOne: r.Intn(3) > 0}
		if large {
			opt = opt.Large(r, 600)
		}
		var docs []*v1.Data
		var keep []*v1.Data
		for k := 1 + r.Intn(3); k > 0; k-- {
			d := gen.New(r, opt).Data(r.Intn(3))
			docs = append(docs, d)
			keep = append(keep, kit.Clone(d))
		}
		// one script which reads all of them, one after another
		var src strings.Builder
		src.WriteString(readers)
		done := map[protoreflect.FullName]bool{}
		for sig := range classes {
			reader(r, bare(sig).Descriptor(), done, &src)
		}
		want := map[string]any{}
		for i, d := range docs {
			sig := sigOf(d)
			p := fmt.Sprint("d", i)
			facts(p, rootOf(d, sig), want)
			fmt.Fprintf(&src, "r%s(%q, new %s().query());\n", bare(sig).Descriptor().Name(), p, classes[sig])
		}
		prog := program(t, src.String())
		var wg sync.WaitGroup
		for c := 0; c < 1+r.Intn(3); c++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				var buf bytes.Buffer
				n := 0
				vm := js.New().WithOutput(&buf).WithScan(func(*v1.Scan) (*v1.Data, error) { n++; return docs[n-1], nil })
				defer vm.Release()
				if err := vm.Run(prog); err != nil {
					t.Fail("script-error", "%v", err)
					return
				}
				got := map[string]bool{}
				for _, l := range strings.Split(strings.TrimSuffix(buf.String(), "\n"), "\n") {
					f := strings.SplitN(l, "\t", 3)
					if len(f) != 3 {
						t.Fail("line", "%s", clip(l))
						return
					}
					w, ok := want[f[0]]
					if !ok || got[f[0]] || !agrees(w, f[1], f[2]) {
						t.Fail("field", "the script reads %s, the document has %v (known %v, read before %v)", clip(l), w, ok, got[f[0]])
						return
					}
					got[f[0]] = true
				}
				if len(got) != len(want) {
					var miss []string
					for k := range want {
						if !got[k] {
							miss = append(miss, k)
						}
					}
					sort.Strings(miss)
					t.Fail("missing", "%d of %d values not read, first %s", len(miss), len(want), miss[0])
				}
				t.Eval(len(want))
			}()
		}
		wg.Wait()
		for i := range docs {
			if !proto.Equal(keep[i], docs[i]) {
				t.Fail("document-changed", "reading changed document %d: %s", i, kit.Diff(keep[i], docs[i]))
			}
		}
		t.Distinct(keep[0].String(), len(docs))
		t.Count("values_read", len(want))
		t.Sample(map[string]any{"documents": len(docs), "values": len(want)})
	}
	// names of the library stand for the numbers of the documents
	names := func(t *zv.T) {
		r := t.Rand
		type pick struct {
			n      int32
			name   string
			object string
		}
		var ks, cs, as []pick
		for n, name := range tracev1.Span_SpanKind_name {
			ks = append(ks, pick{n, name, "SpanKind"})
		}
		for n, name := range tracev1.Status_StatusCode_name {
			cs = append(cs, pick{n, name, "StatusCode"})
		}
		for n, name := range metricsv1.AggregationTemporality_name {
			as = append(as, pick{n, name, "AggregationTemporality"})
		}
		by := func(p []pick) pick {
			sort.Slice(p, func(i, j int) bool { return p[i].n < p[j].n })
			return p[r.Intn(len(p))]
		}
		k, c, a := by(ks), by(cs), by(as)
		sum := float64(1+r.Intn(100)) / 2
		src := readers + fmt.Sprintf(`const all = (e: any, v: any, f: any) => Object.keys(e).filter((x) => isNaN(Number(x)) && f(e[x], v)).join(",");
const loose = (x: any, y: any) => x == y, strict = (x: any, y: any) => x === y;
const s: any = new Trace().query().resource_spans[0].scope_spans[0].spans[0];
const m: any = new Metrics().query().resource_metrics[0].scope_metrics[0].metrics[0];
const h: any = new Metrics().query().resource_metrics[0].scope_metrics[0].metrics[1].GetHistogram().data_points[0];
for (const f of [loose, strict]) println([f(h.sum, %v), f(h.min, 0), f(h.sum, 0), f(h.max, undefined), f(h.count, 7)].join(" "));
for (const f of [loose, strict]) println([all(SpanKind, s.kind, f), all(StatusCode, s.status.code, f), all(AggregationTemporality, m.GetSum().aggregation_temporality, f)].join(" "));
`, sum)
		td := &v1.Data{Data: &v1.Data_Traces{Traces: &tracev1.TracesData{ResourceSpans: []*tracev1.ResourceSpans{{ScopeSpans: []*tracev1.ScopeSpans{{Spans: []*tracev1.Span{{
			Kind: tracev1.Span_SpanKind(k.n), Status: &tracev1.Status{Code: tracev1.Status_StatusCode(c.n)}}}}}}}}}}
		md := &v1.Data{Data: &v1.Data_Metrics{Metrics: &metricsv1.MetricsData{ResourceMetrics: []*metricsv1.ResourceMetrics{{ScopeMetrics: []*metricsv1.ScopeMetrics{{Metrics: []*metricsv1.Metric{{
			Data: &metricsv1.Metric_Sum{Sum: &metricsv1.Sum{AggregationTemporality: metricsv1.AggregationTemporality(a.n)}}}, {
			Data: &metricsv1.Metric_Histogram{Histogram: &metricsv1.Histogram{DataPoints: []*metricsv1.HistogramDataPoint{{Count: 7, Sum: &sum, Min: new(float64)}}}}}}}}}}}}}
		var buf bytes.Buffer
		vm := js.New().WithOutput(&buf).WithScan(func(s *v1.Scan) (*v1.Data, error) {
			if s.Scope == v1.Scan_TRACES {
				return td, nil
			}
			return md, nil
		})
		t.Must(vm.Run(program(t, src)))
		vm.Release()
		want := fmt.Sprintf("%s %s %s", k.name, c.name, a.name)
		ls := strings.Split(buf.String(), "\n")
		if n := "true true false true true"; ls[0] != n {
			t.Fail("optional", "want %s, by == %s", n, ls[0])
		} else if ls[1] == "false false false false true" {
			t.Fail("optional-strict", "optional numbers equal nothing: want %s, by === %s", n, ls[1])
		} else if ls[1] != n {
			t.Fail("optional-other", "want %s, by === %s", n, ls[1])
		}
		if ls[2] != want {
			t.Fail("enum", "want %s, by == %s", want, ls[2])
		} else if ls[3] == "  " {
			t.Fail("enum-strict", "enumerations equal no name: want %s, by === %s", want, ls[3])
		} else if ls[3] != want {
			t.Fail("enum-other", "want %s, by === %s", want, ls[3])
		}
		t.Eval(4)
		t.Distinct(want)
	}
	// what a script takes out of a document before rendering it is not rendered
	edit := func(t *zv.T) {
		r := t.Rand
		d := gen.New(r, gen.Opt{Vocab: 2, Max: 3, AtLeastOne: true, Wild: r.Intn(2) == 0}).Metrics()
		left := kit.Clone(d)
		whole := render.MetricsData(kit.Clone(d).GetMetrics(), render.MetricsFormatOption{})
		min := r.Intn(3)
		m := left.GetMetrics()
		var rs []*metricsv1.ResourceMetrics
		for i, x := range m.ResourceMetrics {
			if i < min {
				rs = append(rs, x)
			}
		}
		m.ResourceMetrics = rs
		pre := fmt.Sprint("renamed ", r.Intn(100))
		for _, x := range rs {
			for _, s := range x.ScopeMetrics {
				for _, y := range s.Metrics {
					y.Name = pre
				}
			}
		}
		src := readers + fmt.Sprintf(`const d: any = new Metrics().query();
Metrics.render(d);
println();
d.resource_metrics = d.resource_metrics.filter((x: any, i: number) => i < %d);
d.resource_metrics.forEach((x: any) => x.scope_metrics.forEach((s: any) => s.metrics.forEach((m: any) => { m.name = %q })));
Metrics.render(d);
`, min, pre)
		var buf bytes.Buffer
		vm := js.New().WithOutput(&buf).WithScan(func(*v1.Scan) (*v1.Data, error) { return d, nil })
		if err := vm.Run(program(t, src)); err != nil {
			t.Fatal("script-error", "%v", err)
		}
		vm.Release()
		if w := whole + "\n" + render.MetricsData(left.GetMetrics(), render.MetricsFormatOption{}); w != buf.String() {
			t.Fatal("edited", "want %s\ngot %s", clip(w), clip(buf.String()))
		}
		t.Eval(1)
		t.Distinct(buf.String())
	}
	return &zv.Prop{
		ID:   "C33",
		Rule: "A script, its reading functions made from the schema of the telemetry (each field by its documented name or getter, lists by forEach, for-of, index or map), reads 1-3 documents of any signal in one to three runtimes at once; every value printed is compared with the document, none missing, none twice, and the documents stay as they were. Names of enumerations are compared with values, and documents a script filtered and renamed with those rendered by the renderer. Distinct: by document",
		Families: []zv.Family{
			{Name: "fields", Quick: 900, Thorough: 6000, Run: func(t *zv.T) { read(t, false, false) }},
			{Name: "wild", Quick: 900, Thorough: 6000, Run: func(t *zv.T) { read(t, true, false) }},
			{Name: "large", Quick: 40, Thorough: 600, Run: func(t *zv.T) { read(t, t.Rand.Intn(3) == 0, true) }},
			{Name: "names", Quick: 240, Thorough: 400, Run: names},
			{Name: "edited", Quick: 360, Thorough: 2000, Run: edit},
		},
	}
}

func sigOf(d *v1.Data) int {
	switch d.Data.(type) {
	case *v1.Data_Metrics:
		return 0
	case *v1.Data_Logs:
		return 1
	}
	return 2
}
