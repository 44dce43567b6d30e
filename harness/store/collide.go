package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/cespare/xxhash/v2"
	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/zverif/gen"
	"github.com/gernest/requiemdb/internal/zverif/kit"
	"github.com/gernest/requiemdb/internal/zverif/zv"
	commonv1 "go.opentelemetry.io/proto/otlp/common/v1"
	resourcev1 "go.opentelemetry.io/proto/otlp/resource/v1"
)

// collide saves samples whose labels have equal 64-bit hashes.
func collide(t *zv.T) {
	st := open(t, true)
	t.Cleanup(func() { st.Close() })
	m := &model{}
	opt := gen.Opt{Vocab: 2, Max: 1, AtLeastOne: true}
	f := &filler{t: t, m: m, r: t.Rand, opt: opt}
	sig := t.Rand.Intn(3)
	k := "key" + strings.Repeat("y", t.Rand.Intn(40))
	prefix := string(key(sig, gen.Label{Prop: int32(v1.Scan_RESOURCE_ATTRIBUTES), Attr: true, Key: k})) + "="
	a, b := gen.Colliding(t.Rand, prefix, t.Rand.Intn(9))
	if xxhash.Sum64String(prefix+a) == xxhash.Sum64String(prefix+b) {
		t.Count("colliding_pairs", 1)
	}
	add := func(v string) *v1.Sample {
		s := f.sample(sig, epoch, 50*time.Minute)
		for len(gen.Leaves(s.Data)) == 0 {
			m.recs = m.recs[:len(m.recs)-1]
			s = f.sample(sig, epoch, 50*time.Minute)
		}
		kv := []*commonv1.KeyValue{gen.KV(k, v)}
		r := &resourcev1.Resource{}
		r.Attributes = kv
		switch e := s.Data.Data.(type) {
		case *v1.Data_Metrics:
			e.Metrics.ResourceMetrics[0].Resource = r
		case *v1.Data_Logs:
			e.Logs.ResourceLogs[0].Resource = r
		case *v1.Data_Traces:
			e.Traces.ResourceSpans[0].Resource = r
		}
		m.recs = m.recs[:len(m.recs)-1]
		m.add(s.Id, sig, kit.Clone(s.Data))
		return s
	}
	for _, v := range []string{a, b, a, b} {
		save(t, st, []*v1.Sample{add(v)})
		time.Sleep(5 * time.Millisecond) // caches admit asynchronously
		for _, w := range []string{a, b} {
			q := &query{signal: sig, rng: true, start: epoch, end: epoch.Add(time.Hour),
				filters: []gen.Label{{Prop: int32(v1.Scan_RESOURCE_ATTRIBUTES), Attr: true, Key: k, Val: w}}}
			n := m.expect(t, st, q)
			t.Distinct(fmt.Sprint(w, n))
		}
	}
}
