package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math"
	"math/rand"
	"strconv"
	"strings"
	"sync"
	"time"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/js"
	"github.com/gernest/requiemdb/internal/render"
	"github.com/gernest/requiemdb/internal/zverif/gen"
	"github.com/gernest/requiemdb/internal/zverif/kit"
	"github.com/gernest/requiemdb/internal/zverif/zv"
	commonv1 "go.opentelemetry.io/proto/otlp/common/v1"
	metricsv1 "go.opentelemetry.io/proto/otlp/metrics/v1"
	"google.golang.org/protobuf/encoding/protojson"
	"google.golang.org/protobuf/proto"
)

// The reference rendering: a list of facts in order, spacing aside.

func refValue(v *commonv1.AnyValue) string {
	switch e := v.GetValue().(type) {
	case *commonv1.AnyValue_StringValue:
		return strconv.Quote(e.StringValue)
	case *commonv1.AnyValue_BoolValue:
		if e.BoolValue {
			return "true"
		}
		return "false"
	case *commonv1.AnyValue_IntValue:
		return strconv.FormatInt(e.IntValue, 10)
	case *commonv1.AnyValue_DoubleValue:
		return fmt.Sprint(e.DoubleValue)
	case *commonv1.AnyValue_BytesValue:
		return hex.EncodeToString(e.BytesValue)
	case *commonv1.AnyValue_ArrayValue:
		var o []string
		for _, x := range e.ArrayValue.GetValues() {
			o = append(o, refValue(x))
		}
		return "[" + strings.Join(o, ", ") + "]"
	case *commonv1.AnyValue_KvlistValue:
		return refAttrs(e.KvlistValue.GetValues())
	}
	return ""
}

func refAttrs(kvs []*commonv1.KeyValue) string {
	if len(kvs) == 0 {
		return "{}"
	}
	var o []string
	for _, kv := range kvs {
		o = append(o, kv.Key+" = "+refValue(kv.Value))
	}
	return "{ " + strings.Join(o, ", ") + " }"
}

func refNumber(v float64, unit string) string {
	d := map[string]time.Duration{"h": time.Hour, "m": time.Minute, "s": time.Second, "ms": time.Millisecond, "ns": 1}[unit]
	switch {
	case (d != 0 || unit == "By") && (v != v || math.IsInf(v, 0)), d != 0 && math.Abs(v*float64(d)) >= 1<<63, unit == "By" && math.Abs(v) >= 1<<64:
		return fmt.Sprint(v) + " " + unit
	case d != 0:
		return time.Duration(v * float64(d)).String()
	case unit == "By":
		neg := ""
		if v < 0 {
			neg, v = "-", -v
		}
		v = math.Trunc(v)
		if v < 10 {
			return fmt.Sprintf("%s%d B", neg, int(v))
		}
		u := 0
		for v >= math.Pow(1024, float64(u+1)) {
			u++
		}
		x := math.Floor(v/math.Pow(1024, float64(u))*10+0.5) / 10
		if x < 10 {
			return fmt.Sprintf("%s%.1f %s", neg, x, []string{"B", "KiB", "MiB", "GiB", "TiB", "PiB", "EiB"}[u])
		}
		return fmt.Sprintf("%s%.0f %s", neg, x, []string{"B", "KiB", "MiB", "GiB", "TiB", "PiB", "EiB"}[u])
	}
	return fmt.Sprint(v)
}

func refRender(md *metricsv1.MetricsData, o render.MetricsFormatOption) (ls []string) {
	for _, rm := range md.ResourceMetrics {
		ls = append(ls, "=== "+rm.SchemaUrl)
		if o.Resource {
			ls = append(ls, "resource.schema "+rm.SchemaUrl, "resource.attributes "+refAttrs(rm.GetResource().GetAttributes()))
		}
		for _, sm := range rm.ScopeMetrics {
			s := sm.GetScope()
			ls = append(ls, "--> "+s.GetName())
			if o.Scope {
				ls = append(ls, "scope.name "+s.GetName(), "scope.schema "+sm.SchemaUrl, "scope.version "+s.GetVersion(), "scope.attributes "+refAttrs(s.GetAttributes()))
			}
			for _, m := range sm.Metrics {
				unit := m.Unit
				if unit == "" && strings.Contains(m.Description, "nanoseconds") {
					unit = "ns"
				}
				ls = append(ls, m.Name)
				if o.Metrics {
					ls = append(ls, "description "+m.Description, "unit "+unit)
				}
				var ps []*metricsv1.NumberDataPoint
				if e, ok := m.Data.(*metricsv1.Metric_Gauge); ok {
					ps = e.Gauge.DataPoints
				} else if e, ok := m.Data.(*metricsv1.Metric_Sum); ok {
					ps = e.Sum.DataPoints
				} else {
					continue
				}
				ls = append(ls, "TIMESTAMP VALUE ATTRIBUTES")
				for _, p := range ps {
					v := p.GetAsDouble()
					if e, ok := p.Value.(*metricsv1.NumberDataPoint_AsInt); ok {
						v = float64(e.AsInt)
					}
					ls = append(ls, time.Unix(0, int64(p.TimeUnixNano)).UTC().Format("2006-01-02 15:04:05")+" "+refNumber(v, unit)+" "+refAttrs(p.Attributes))
				}
			}
		}
	}
	return
}

// squeeze drops what is only layout.
func squeeze(ls []string) (o []string) {
	for _, l := range ls {
		if s := strings.Join(strings.Fields(l), " "); s != "" {
			o = append(o, s)
		}
	}
	return
}

func values(r *rand.Rand, unit string) float64 {
	lim := 1e15
	switch unit {
	case "h":
		lim = 1e6
	case "m", "s":
		lim = 1e7
	case "ms":
		lim = 1e11
	}
	switch r.Intn(8) {
	case 0:
		return 0
	case 1:
		return float64(r.Intn(12))
	case 2:
		return -float64(r.Intn(3000)) - 0.5
	case 3:
		return math.Ldexp(1, r.Intn(50)) * min(1, lim/math.Ldexp(1, 50))
	case 4:
		return []float64{math.Inf(1), math.Inf(-1), math.NaN(), 1e300, 5e-324, -1e300, 1 << 63, -1 << 63, 1 << 64, math.Nextafter(1<<64, 0), 9.3e9, 1e19, 1e12}[r.Intn(13)]
	default:
		return math.Round(r.NormFloat64()*lim/10)/8 + 0
	}
}

var units = []string{"", "h", "m", "s", "ms", "ns", "By", "u1", "1", "{x}"}

// clean makes texts fit one line: the text form has no way to show others.
func cleanText(s string) string {
	s = strings.Map(func(c rune) rune {
		if c < 32 || c == 0x7f {
			return '_'
		}
		return c
	}, s)
	return s
}

func cleanAttrs(kvs []*commonv1.KeyValue) {
	for _, kv := range kvs {
		kv.Key = cleanText(kv.Key)
		cleanAny(kv.Value)
	}
}

func cleanAny(v *commonv1.AnyValue) {
	for _, x := range v.GetArrayValue().GetValues() {
		cleanAny(x)
	}
	cleanAttrs(v.GetKvlistValue().GetValues())
}

func document(r *rand.Rand, wild, large bool) *metricsv1.MetricsData {
	o := gen.Opt{Vocab: 1 + r.Intn(4), Wild: wild, Max: 1 + r.Intn(3), AtLeastOne: r.Intn(4) > 0, TimeLo: 1, TimeHi: 4e18, ZeroTime: r.Intn(2)}
	if large {
		o = o.Large(r, 1000)
	}
	md := gen.New(r, o).Metrics().GetMetrics()
	for _, rm := range md.ResourceMetrics {
		rm.SchemaUrl = cleanText(rm.SchemaUrl)
		cleanAttrs(rm.GetResource().GetAttributes())
		for _, sm := range rm.ScopeMetrics {
			sm.SchemaUrl = cleanText(sm.SchemaUrl)
			if sm.Scope != nil {
				sm.Scope.Name, sm.Scope.Version = cleanText(sm.Scope.Name), cleanText(sm.Scope.Version)
				cleanAttrs(sm.Scope.Attributes)
			}
			for _, m := range sm.Metrics {
				m.Name, m.Description = cleanText(m.Name), cleanText(m.Description)
				m.Unit = units[r.Intn(len(units))]
				if r.Intn(5) == 0 {
					m.Description = "time in nanoseconds " + m.Description
				}
				unit := m.Unit
				if unit == "" && strings.Contains(m.Description, "nanoseconds") {
					unit = "ns"
				}
				for _, p := range append(append([]*metricsv1.NumberDataPoint{}, m.GetGauge().GetDataPoints()...), m.GetSum().GetDataPoints()...) {
					cleanAttrs(p.Attributes)
					v := values(r, unit)
					switch r.Intn(5) {
					case 0, 1:
						if math.Abs(v) > 1<<53 || v != v {
							v = 3
						}
						p.Value = &metricsv1.NumberDataPoint_AsInt{AsInt: int64(v)}
					case 2, 3:
						p.Value = &metricsv1.NumberDataPoint_AsDouble{AsDouble: v}
					default:
						p.Value = nil
					}
				}
			}
		}
	}
	return md
}

func judgeText(t *zv.T, md *metricsv1.MetricsData, o render.MetricsFormatOption, got string) {
	want, have := squeeze(refRender(md, o)), squeeze(strings.Split(got, "\n"))
	t.Eval(1)
	for i := 0; i < len(want) || i < len(have); i++ {
		switch {
		case i >= len(have):
			t.Fatal("text-missing", "line %d %q is missing (%v)", i, want[i], o)
		case i >= len(want):
			t.Fatal("text-extra", "line %d %q is too much (%v)", i, have[i], o)
		case want[i] != have[i]:
			t.Fatal("text-differs", "line %d: want %q got %q (%v)", i, want[i], have[i], o)
		}
	}
}

func judgeJSON(t *zv.T, md *metricsv1.MetricsData, b []byte) {
	t.Eval(1)
	var back metricsv1.MetricsData
	if err := protojson.Unmarshal(b, &back); err != nil {
		t.Fatal("json-invalid", "%v: %s", err, clip(string(b)))
	}
	if !proto.Equal(md, &back) {
		t.Fatal("json-differs", "%s", kit.Diff(md, &back))
	}
}

func propC22() *zv.Prop {
	one := func(t *zv.T, r *rand.Rand, wild, large bool) {
		md := document(r, wild, large)
		before := kit.Clone(md)
		var kept, was []string
		for k := 0; k < 3; k++ {
			o := render.MetricsFormatOption{Resource: r.Intn(2) == 0, Scope: r.Intn(2) == 0, Metrics: r.Intn(2) == 0}
			s := render.MetricsData(md, o)
			judgeText(t, md, o, s)
			kept, was = append(kept, s), append(was, strings.Clone(s))
			t.Count("lines", strings.Count(s, "\n"))
			t.Distinct(s)
			t.Sample(map[string]any{"options": o, "text": clip(s)})
		}
		b, err := render.MetricsDataJSON(md, render.JSONOptions{Pretty: r.Intn(2) == 0})
		if err != nil {
			t.Fatal("json-error", "%v", err)
		}
		judgeJSON(t, md, b)
		for i := range kept {
			if kept[i] != was[i] {
				t.Fatal("text-changed", "text %d of %d changed after it was rendered: %s", i, len(kept), clip(kept[i]))
			}
		}
		if !proto.Equal(md, before) {
			t.Fatal("input-changed", "%s", kit.Diff(before, md))
		}
	}
	return &zv.Prop{
		ID:   "C22",
		Rule: "an execution renders generated metric documents (all kinds, units, attribute values and options) as text and JSON, directly, from scripts and in parallel; rendered texts count as distinct. The oracle compares the sequence of facts (spacing aside) with an independent rendering, and the JSON read back with the document",
		Assume: []string{
			"control characters in names are shown as they are and may break lines: texts outside of quoted values have none",
			"integers are shown with the precision of a double, durations within the range of time.Duration",
		},
		Families: []zv.Family{
			{Name: "plain", Quick: 2400, Thorough: 40000, Run: func(t *zv.T) {
				for i := 0; i < 12; i++ {
					one(t, t.Rand, false, false)
				}
			}},
			{Name: "wild", Quick: 2400, Thorough: 40000, Run: func(t *zv.T) {
				for i := 0; i < 12; i++ {
					one(t, t.Rand, true, false)
				}
			}},
			{Name: "large", Quick: 200, Thorough: 3000, Run: func(t *zv.T) { one(t, t.Rand, t.Rand.Intn(3) == 0, true) }},
			{Name: "script", Quick: 1200, Thorough: 15000, Run: func(t *zv.T) {
				r := t.Rand
				for i := 0; i < 4; i++ {
					md := document(r, r.Intn(2) == 0, r.Intn(40) == 0)
					var buf bytes.Buffer
					vm := js.New().WithOutput(&buf).WithData(&v1.Data{Data: &v1.Data_Metrics{Metrics: md}})
					o := render.MetricsFormatOption{Resource: r.Intn(2) == 0, Scope: r.Intn(2) == 0, Metrics: r.Intn(2) == 0}
					opt := fmt.Sprintf("{resource:%v,scope:%v,metrics:%v}", o.Resource, o.Scope, o.Metrics)
					if r.Intn(4) == 0 {
						o, opt = render.MetricsFormatOption{}, "undefined"
					}
					pretty := []string{"undefined", "{pretty:true}", "{pretty:false}"}[r.Intn(3)]
					src := `import { Metrics, println } from "@requiemdb/rq";` + "\nconst d: any = new Metrics().query(); Metrics.render(d, " + opt + " as any); println('\\n@@@'); Metrics.renderJSON(d, " + pretty + " as any);"
					if err := vm.Run(program(t, src)); err != nil {
						t.Fatal("script-error", "%v", err)
					}
					i := strings.Index(buf.String(), "\n@@@\n")
					judgeText(t, md, o, buf.String()[:i])
					judgeJSON(t, md, []byte(buf.String()[i+5:]))
					t.Distinct(buf.String())
				}
			}},
			{Name: "parallel", Quick: 600, Thorough: 8000, Run: func(t *zv.T) {
				var wg sync.WaitGroup
				for g := 0; g < 6; g++ {
					r := rand.New(rand.NewSource(t.Rand.Int63()))
					wg.Add(1)
					go func() {
						defer wg.Done()
						defer func() {
							if e := recover(); e != nil && !t.Failed() {
								t.Fail("panic", "rendering in parallel: %v", e)
							}
						}()
						for i := 0; i < 12; i++ {
							one(t, r, i%2 == 0, false)
						}
					}()
				}
				wg.Wait()
			}},
		},
	}
}
