package main

import (
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"time"

	"github.com/cespare/xxhash/v2"
	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/js"
	"github.com/gernest/requiemdb/internal/visit"
	"github.com/gernest/requiemdb/internal/zverif/gen"
	"github.com/gernest/requiemdb/internal/zverif/kit"
	"github.com/gernest/requiemdb/internal/zverif/zv"
	commonv1 "go.opentelemetry.io/proto/otlp/common/v1"
	resourcev1 "go.opentelemetry.io/proto/otlp/resource/v1"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/durationpb"
	"google.golang.org/protobuf/types/known/timestamppb"
)

type kv = gen.Pair

type want = gen.Want

// full identifies a leaf with every field of its surroundings, those which do
// not identify them too (descriptions, dropped counts).
func full(l *gen.Leaf) string {
	var m []byte
	if l.MetricMsg != nil {
		x := kit.Clone(l.MetricMsg)
		if g := x.GetGauge(); g != nil {
			g.DataPoints = nil
		}
		if g := x.GetSum(); g != nil {
			g.DataPoints = nil
		}
		if g := x.GetHistogram(); g != nil {
			g.DataPoints = nil
		}
		if g := x.GetExponentialHistogram(); g != nil {
			g.DataPoints = nil
		}
		if g := x.GetSummary(); g != nil {
			g.DataPoints = nil
		}
		m = gen.Bytes(x)
	}
	return fmt.Sprintf("%s\x1f%q %v %x\x1f%q %v %x\x1f%x\x1f%x", l.Signal, l.ResSchema, l.ResourceMsg != nil, gen.Bytes(l.ResourceMsg),
		l.ScopeSchema, l.ScopeMsg != nil, gen.Bytes(l.ScopeMsg), m, l.Point)
}

// filters draws filters which often match something of d.
func filters(r *rand.Rand, d *v1.Data) (*want, []*v1.Scan_Filter) {
	w := &want{Base: map[v1.Scan_BaseProp]map[string]bool{}, Attr: map[v1.Scan_AttributeProp]map[kv]bool{}}
	ls := gen.Leaves(d)
	var fs []*v1.Scan_Filter
	base := func(p v1.Scan_BaseProp, v string) {
		if v == "" {
			return
		}
		if w.Base[p] == nil {
			w.Base[p] = map[string]bool{}
		}
		w.Base[p][v] = true
		switch p {
		case v1.Scan_TRACE_ID, v1.Scan_SPAN_ID, v1.Scan_PARENT_SPAN_ID:
			switch r.Intn(8) {
			case 0:
				v = strings.ToUpper(v)
			case 1:
				v = strings.Replace(v, "a", "A", 1)
			}
		}
		fs = append(fs, &v1.Scan_Filter{Value: &v1.Scan_Filter_Base{Base: &v1.Scan_BaseFilter{Prop: p, Value: v}}})
	}
	attr := func(p v1.Scan_AttributeProp, kvs []*commonv1.KeyValue) {
		if len(kvs) == 0 {
			return
		}
		a := kvs[r.Intn(len(kvs))]
		k, v := a.Key, a.GetValue().GetStringValue()
		switch r.Intn(12) {
		case 0:
			v += "x"
		case 1:
			k += "x"
		case 2:
			if v != "" {
				k, v = k+v[:1], v[1:]
			}
		}
		if v == "" {
			return
		}
		if w.Attr[p] == nil {
			w.Attr[p] = map[kv]bool{}
		}
		w.Attr[p][kv{k, v}] = true
		fs = append(fs, &v1.Scan_Filter{Value: &v1.Scan_Filter_Attr{Attr: &v1.Scan_AttrFilter{Prop: p, Key: k, Value: v}}})
	}
	if len(ls) > 0 {
		focus := ls[r.Intn(len(ls))]
		n := r.Intn(5)
		all := r.Intn(20) == 0
		if all {
			n = 10 + r.Intn(30)
		}
		for ; n > 0; n-- {
			l := focus
			if r.Intn(3) == 0 && !all {
				l = ls[r.Intn(len(ls))]
			}
			hx := func(b []byte) string {
				s := hex.EncodeToString(b)
				if r.Intn(10) == 0 && s != "" {
					return "00" + s[2:]
				}
				return s
			}
			var opts []func()
			opts = append(opts,
				func() { base(v1.Scan_RESOURCE_SCHEMA, l.ResSchema) },
				func() { base(v1.Scan_SCOPE_SCHEMA, l.ScopeSchema) },
				func() { base(v1.Scan_SCOPE_NAME, l.ScopeMsg.GetName()) },
				func() { base(v1.Scan_SCOPE_VERSION, l.ScopeMsg.GetVersion()) },
				func() { attr(v1.Scan_RESOURCE_ATTRIBUTES, l.ResourceMsg.GetAttributes()) },
				func() { attr(v1.Scan_SCOPE_ATTRIBUTES, l.ScopeMsg.GetAttributes()) },
				func() { attr(v1.Scan_ATTRIBUTES, l.Attrs) },
				func() { attr(v1.Scan_ATTRIBUTES, l.Attrs) },
			)
			switch {
			case l.LogMsg != nil:
				opts = append(opts,
					func() { base(v1.Scan_LOGS_LEVEL, l.LogMsg.SeverityText) },
					func() { base(v1.Scan_TRACE_ID, hx(l.LogMsg.TraceId)) },
					func() { base(v1.Scan_SPAN_ID, hx(l.LogMsg.SpanId)) })
			case l.SpanMsg != nil:
				opts = append(opts,
					func() { base(v1.Scan_NAME, l.Name) },
					func() { base(v1.Scan_TRACE_ID, hx(l.SpanMsg.TraceId)) },
					func() { base(v1.Scan_SPAN_ID, hx(l.SpanMsg.SpanId)) },
					func() { base(v1.Scan_PARENT_SPAN_ID, hx(l.SpanMsg.ParentSpanId)) })
			default:
				opts = append(opts, func() { base(v1.Scan_NAME, l.Name) }, func() { base(v1.Scan_NAME, l.Name+"x"[:r.Intn(2)]) })
			}
			opts[r.Intn(len(opts))]()
		}
	}
	r.Shuffle(len(fs), func(i, j int) { fs[i], fs[j] = fs[j], fs[i] })
	// the range: everything, around a leaf's time, or empty
	w.Start, w.End = 0, 1<<62
	if len(ls) > 0 && r.Intn(3) > 0 {
		a, b := ls[r.Intn(len(ls))].Time, ls[r.Intn(len(ls))].Time
		if b < a {
			a, b = b, a
		}
		switch r.Intn(4) {
		case 0:
			b++
		case 1:
			b += 2
			a++
		case 2:
			if a > 0 {
				a--
			}
		}
		w.Start, w.End = a, b
	}
	return w, fs
}

func judgeVisit(t *zv.T, w *want, before, after, got *v1.Data) (n int) {
	t.Eval(1)
	if !proto.Equal(before, after) {
		t.Fatal("input-changed", "the filter changed the document it was given: %s", kit.Diff(before, after))
	}
	if got == nil || sigOf(got) != sigOf(before) {
		t.Fatal("kind", "the answer is %v", got)
	}
	var exp []string
	for _, l := range gen.Leaves(before) {
		if w.Accept(l) {
			exp = append(exp, full(l))
		}
	}
	var have []string
	for _, l := range gen.Leaves(got) {
		have = append(have, full(l))
	}
	for i := 0; i < len(exp) || i < len(have); i++ {
		switch {
		case i >= len(have):
			t.Fatal("missing", "%d of %d accepted entries; first missing %q\nfilters %v", len(have), len(exp), clip(exp[i]), w)
		case i >= len(exp):
			t.Fatal("unexpected", "%d entries where %d are accepted; first extra %q\nfilters %v", len(have), len(exp), clip(have[i]), w)
		case exp[i] != have[i]:
			t.Fatal("differs", "entry %d: want %q got %q\nfilters %v", i, clip(exp[i]), clip(have[i]), w)
		}
	}
	return len(exp)
}

func clip(s string) string {
	if len(s) > 400 {
		return s[:400] + "…"
	}
	return s
}

func propC16() *zv.Prop {
	one := func(t *zv.T, r *rand.Rand, wild, viaJS, large bool) {
		o := gen.Opt{Vocab: 1 + r.Intn(4), Wild: wild, Max: 1 + r.Intn(3), AtLeastOne: r.Intn(4) > 0, ZeroTime: r.Intn(2)}
		lo := uint64(time.Date(2023, 5, 6, 7, 0, 0, 0, time.UTC).UnixNano())
		o.TimeLo, o.TimeHi = lo, lo+uint64(1+r.Intn(30))
		if r.Intn(2) == 0 {
			o.TimeHi = lo + uint64(time.Hour)
		}
		if large {
			o = o.Large(r, 1500)
		}
		d := gen.New(r, o).Data(r.Intn(3))
		for k := 0; k < 6; k++ {
			w, fs := filters(r, d)
			in := kit.Clone(d)
			var got *v1.Data
			if viaJS {
				s := &v1.Scan{Scope: gen.ScopeOf(sigOf(d)), Filters: fs}
				j := js.New().WithScan(func(*v1.Scan) (*v1.Data, error) { return in, nil })
				nowt := time.Unix(0, int64(lo)+r.Int63n(int64(2*time.Hour)))
				switch r.Intn(4) {
				case 0: // instant: the 15 minutes before now
					j.WithNow(func() time.Time { return nowt })
				case 1:
					s.Now = timestamppb.New(nowt)
					j.WithNow(func() time.Time { return time.Unix(7, 0) })
				case 2:
					off := time.Duration(r.Int63n(int64(time.Hour)))
					s.Now, s.Offset = timestamppb.New(nowt), durationpb.New(off)
					nowt = nowt.Add(-off)
				default:
					a, b := at(w.Start), at(w.End)
					// before or after every time an entry can have
					if r.Intn(4) == 0 {
						a, w.Start = time.Date(1+r.Intn(1969), 1, 1+r.Intn(300), 0, 0, 0, r.Intn(1e9), time.UTC), 0
					}
					if r.Intn(4) == 0 {
						b, w.End = time.Date(2555+r.Intn(7444), 1, 1+r.Intn(300), 0, 0, 0, r.Intn(1e9), time.UTC), ^uint64(0)
					} else if r.Intn(16) == 0 {
						b, w.End = time.Date(1+r.Intn(1969), 1, 1+r.Intn(300), 0, 0, 0, r.Intn(1e9), time.UTC), 0
					}
					s.TimeRange = &v1.Scan_TimeRange{Start: timestamppb.New(a), End: timestamppb.New(b)}
				}
				if s.TimeRange == nil {
					w.Start, w.End = uint64(nowt.Add(-15*time.Minute).UnixNano()), uint64(nowt.UnixNano())
					if len(fs) == 0 { // the whole sample
						w.Start, w.End = 0, ^uint64(0)
					}
				}
				var err error
				got, err = j.Scan(s)
				if err != nil {
					t.Fatal("error", "%v", err)
				}
				j.Release()
			} else {
				v := visit.New()
				v.SetTimeRange(w.Start, w.End)
				v.Compile(fs...)
				got = v.Visit(in)
				v.Release()
			}
			n := judgeVisit(t, w, d, in, got)
			if n > 0 && n < len(gen.Leaves(d)) {
				t.Count("partial_matches", 1)
				t.Distinct(xxhash.Sum64(gen.Bytes(got)), fmt.Sprint(fs))
				t.Sample(map[string]any{"filters": fmt.Sprint(fs), "accepted": n, "of": len(gen.Leaves(d))})
			}
			if n > 0 {
				t.Count("matches", n)
			}
		}
	}
	many := func(wild, viaJS bool) func(t *zv.T) {
		return func(t *zv.T) {
			n := 60
			if viaJS {
				n = 12
			}
			for i := 0; i < n; i++ {
				one(t, t.Rand, wild, viaJS, false)
			}
		}
	}
	return &zv.Prop{
		ID:   "C16",
		Rule: "an execution filters generated documents by generated filters (taken from the documents, distorted or combined) and time ranges on and next to the entries' times; a filtering counts as distinct when it accepted some but not all entries. The oracle decides every entry by itself and compares the ordered list of accepted entries with every field of their surroundings",
		Assume: []string{
			"only filters of kinds that exist for the signal and non-empty filter values are generated",
			"times between 1970 and 2262",
		},
		Families: []zv.Family{
			{Name: "filter", Quick: 60 * 4, Thorough: 5000, Run: many(false, false)},
			{Name: "wild", Quick: 60 * 4, Thorough: 5000, Run: many(true, false)},
			{Name: "script", Quick: 40 * 4, Thorough: 2000, Run: many(false, true)},
			{Name: "script-wild", Quick: 30 * 4, Thorough: 2000, Run: many(true, true)},
			{Name: "large", Quick: 120, Thorough: 2000, Run: func(t *zv.T) { one(t, t.Rand, t.Rand.Intn(3) == 0, t.Rand.Intn(2) == 0, true) }},
			{Name: "parallel", Quick: 20 * 4, Thorough: 800, Run: func(t *zv.T) {
				var wg sync.WaitGroup
				for k := 0; k < 6; k++ {
					r := rand.New(rand.NewSource(t.Rand.Int63()))
					wg.Add(1)
					go func() {
						defer wg.Done()
						defer func() {
							if e := recover(); e != nil && !t.Failed() {
								t.Fail("panic", "filtering in parallel: %v", e)
							}
						}()
						for i := 0; i < 40; i++ {
							one(t, r, i%2 == 0, false, false)
						}
					}()
				}
				wg.Wait()
			}},
			{Name: "collide", Quick: 20 * 4, Thorough: 400, Run: collideVisit},
		},
	}
}

// collideVisit asks for texts whose 64-bit xxhash equals that of other texts.
func collideVisit(t *zv.T) {
	for i := 0; i < 6; i++ {
		d := gen.New(t.Rand, gen.Opt{Vocab: 1, Max: 1, AtLeastOne: true, TimeLo: 5, TimeHi: 9}).Data(t.Rand.Intn(3))
		k := fmt.Sprint("key", i)
		var p [8]byte
		binary.LittleEndian.PutUint64(p[:], uint64(len(k)))
		a, b := gen.Colliding(t.Rand, string(p[:])+k, t.Rand.Intn(9))
		c, e := gen.Colliding(t.Rand, "", t.Rand.Intn(9))
		w := &want{Base: map[v1.Scan_BaseProp]map[string]bool{}, Attr: map[v1.Scan_AttributeProp]map[kv]bool{}, End: 1 << 60}
		var fs []*v1.Scan_Filter
		for _, r := range d.GetMetrics().GetResourceMetrics() {
			r.SchemaUrl = c
			r.Resource = &resourcev1.Resource{Attributes: []*commonv1.KeyValue{gen.KV(k, a)}}
		}
		for _, r := range d.GetLogs().GetResourceLogs() {
			r.SchemaUrl = c
			r.Resource = &resourcev1.Resource{Attributes: []*commonv1.KeyValue{gen.KV(k, a)}}
		}
		for _, r := range d.GetTraces().GetResourceSpans() {
			r.SchemaUrl = c
			r.Resource = &resourcev1.Resource{Attributes: []*commonv1.KeyValue{gen.KV(k, a)}}
		}
		if t.Rand.Intn(2) == 0 {
			v := []string{a, b}[t.Rand.Intn(2)]
			w.Attr[v1.Scan_RESOURCE_ATTRIBUTES] = map[kv]bool{{k, v}: true}
			fs = append(fs, &v1.Scan_Filter{Value: &v1.Scan_Filter_Attr{Attr: &v1.Scan_AttrFilter{Prop: v1.Scan_RESOURCE_ATTRIBUTES, Key: k, Value: v}}})
		} else {
			v := []string{c, e}[t.Rand.Intn(2)]
			w.Base[v1.Scan_RESOURCE_SCHEMA] = map[string]bool{v: true}
			fs = append(fs, &v1.Scan_Filter{Value: &v1.Scan_Filter_Base{Base: &v1.Scan_BaseFilter{Prop: v1.Scan_RESOURCE_SCHEMA, Value: v}}})
		}
		in := kit.Clone(d)
		v := visit.New()
		v.SetTimeRange(0, 1<<60)
		v.Compile(fs...)
		n := judgeVisit(t, w, d, in, v.Visit(in))
		v.Release()
		t.Distinct(a, c, n)
		t.Count("colliding_pairs", 1)
	}
}

// at is the time of an entry, also where it does not fit into 63 bits.
func at(ns uint64) time.Time { return time.Unix(int64(ns/1e9), int64(ns%1e9)) }
