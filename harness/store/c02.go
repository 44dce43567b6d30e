package main

import (
	"fmt"
	"sort"
	"time"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/zverif/gen"
	"github.com/gernest/requiemdb/internal/zverif/kit"
	"github.com/gernest/requiemdb/internal/zverif/zv"
)

func sortedLabels(m map[gen.Label]bool) []gen.Label {
	o := make([]gen.Label, 0, len(m))
	for l := range m {
		o = append(o, l)
	}
	sort.Slice(o, func(i, j int) bool {
		a, b := o[i], o[j]
		switch {
		case a.Prop != b.Prop:
			return a.Prop < b.Prop
		case a.Attr != b.Attr:
			return b.Attr
		case a.Key != b.Key:
			return a.Key < b.Key
		}
		return a.Val < b.Val
	})
	return o
}

// filters draws a set of filters: of one sample (hits), of several samples
// (conjunctions that may miss), unknown labels, labels of another kind.
func (m *model) filters(t *zv.T) (o []gen.Label) {
	r := t.Rand
	pick := func() *rec { return m.recs[r.Intn(len(m.recs))] }
	of := func(x *rec) {
		if x.sorted == nil {
			x.sorted = sortedLabels(x.labels)
		}
		ls := x.sorted
		if len(ls) > 0 {
			o = append(o, ls[r.Intn(len(ls))])
		}
	}
	n := r.Intn(4)
	switch r.Intn(7) {
	case 0: // none
	case 1, 2: // all of one sample
		x := pick()
		for ; n >= 0; n-- {
			of(x)
		}
	case 3, 4: // of any samples
		for ; n >= 0; n-- {
			of(pick())
		}
	case 6: // most labels of one sample, once in a while another one
		x := pick()
		of(x)
		o = append(o[:0:0], x.sorted...)
		r.Shuffle(len(o), func(i, j int) { o[i], o[j] = o[j], o[i] })
		if len(o) > 3 {
			o = o[:len(o)-r.Intn(3)]
		}
		if len(o) > 200 {
			o = o[:200]
		}
		if r.Intn(3) == 0 {
			of(pick())
			return
		}
	case 5: // distorted
		x := pick()
		of(x)
		of(x)
		if len(o) > 0 {
			l := &o[r.Intn(len(o))]
			switch r.Intn(4) {
			case 0:
				l.Key += "x"
			case 1:
				if l.Attr {
					l.Val += "x"
				} else if l.Key != "" {
					l.Key = l.Key[:len(l.Key)-1]
				}
			case 2: // same text, other place
				if l.Attr {
					l.Prop = []int32{int32(v1.Scan_RESOURCE_ATTRIBUTES), int32(v1.Scan_SCOPE_ATTRIBUTES), int32(v1.Scan_ATTRIBUTES)}[r.Intn(3)]
				} else {
					l.Prop = []int32{int32(v1.Scan_NAME), int32(v1.Scan_SCOPE_NAME), int32(v1.Scan_SCOPE_VERSION), int32(v1.Scan_RESOURCE_SCHEMA), int32(v1.Scan_SCOPE_SCHEMA), int32(v1.Scan_TRACE_ID), int32(v1.Scan_SPAN_ID), int32(v1.Scan_PARENT_SPAN_ID), int32(v1.Scan_LOGS_LEVEL)}[r.Intn(9)]
				}
			case 3: // key and value swapped
				if l.Attr {
					l.Key, l.Val = l.Val, l.Key
				}
			}
		}
	}
	r.Shuffle(len(o), func(i, j int) { o[i], o[j] = o[j], o[i] })
	return
}

// propC02: filters select exactly the samples that carry every label.
func propC02() *zv.Prop {
	run := func(t *zv.T, wide int, wild, large bool) {
		// in memory, values are limited to 1 MiB
		st := open(t, !large)
		t.Cleanup(func() { st.Close() })
		m := &model{}
		f := &filler{t: t, m: m, r: t.Rand, opt: gen.Opt{Vocab: 2 + t.Rand.Intn(3), Wild: wild, Max: 1 + t.Rand.Intn(2), AtLeastOne: t.Rand.Intn(4) > 0}}
		if large {
			f.opt = f.opt.Large(t.Rand, 2500)
		}
		nb := 2
		hours := 1 + t.Rand.Intn(2)
		for b := 0; b < nb; b++ {
			if b > 0 && wide > 0 {
				t.Must(st.Wide(wide))
				f.opt.Vocab += 2
			}
			var ls []*v1.Sample
			for n := 2 + t.Rand.Intn(5); n > 0; n-- {
				ls = append(ls, f.sample(t.Rand.Intn(3), epoch.Add(time.Duration(t.Rand.Intn(hours))*time.Hour), 50*time.Minute))
			}
			save(t, st, ls)
		}
		maxCol, minCol := uint64(0), ^uint64(0)
		for i := 0; i < 60 && !t.Failed() && (i < 20 || !large); i++ {
			q := &query{signal: t.Rand.Intn(3), filters: m.filters(t)}
			switch t.Rand.Intn(4) {
			case 0:
				q.now = epoch.Add(time.Duration(10+t.Rand.Intn(120)) * time.Minute)
			default:
				q.rng = true
				q.start, q.end = epoch, epoch.Add(time.Duration(hours)*time.Hour)
			}
			n := m.expect(t, st, q)
			switch {
			case n == 0:
				t.Count("scans_expected_empty", 1)
			default:
				t.Count("scans_with_matches", 1)
				if len(q.filters) > 1 {
					t.Count("conjunctions_with_matches", 1)
				}
				t.Distinct(q.String(), n, wide)
			}
			t.Max("filters", len(q.filters))
			t.Max("matches", n)
			for _, l := range q.filters {
				c, err := st.Tr.Find(key(q.signal, l))
				if err == nil {
					maxCol, minCol = max(maxCol, c), min(minCol, c)
				}
			}
		}
		if wide > 0 {
			t.Count(fmt.Sprintf("spread_2^%d", bitlen(maxCol-minCol)), 1)
		}
		t.Sample(map[string]any{"samples": len(m.recs), "label_ids": fmt.Sprintf("%d..%d", minCol, maxCol), "labels_of_first": clip(fmt.Sprint(sortedLabels(m.recs[0].labels)))})
	}
	return &zv.Prop{
		ID:   "C02",
		Rule: "an execution saves generated samples with colliding labels in one or more label-id regions, then runs 60 scans with generated filter sets; a scan counts as distinct when it has at least one matching sample. The oracle recomputes every sample's labels from the telemetry itself and compares the multiset of returned points/records/spans",
		Assume: []string{
			"attribute filters are judged for non-empty string values only, as the labels of a sample are defined",
		},
		Families: []zv.Family{
			{Name: "plain", Quick: 30, Thorough: 900, Run: func(t *zv.T) { run(t, 0, false, false) }},
			{Name: "wild", Quick: 30, Thorough: 900, Run: func(t *zv.T) { run(t, 0, true, false) }},
			{Name: "containers", Quick: 24, Thorough: 400, Run: func(t *zv.T) { run(t, 17, t.Rand.Intn(2) == 0, false) }},
			{Name: "shards", Quick: 24, Thorough: 300, Run: func(t *zv.T) { run(t, 258, t.Rand.Intn(2) == 0, false) }},
			{Name: "large", Quick: 12, Thorough: 300, Run: func(t *zv.T) { run(t, 0, t.Rand.Intn(3) == 0, true) }},
			{Name: "trickle", Quick: 18, Thorough: 400, Run: trickle},
			{Name: "collide", Quick: 12, Thorough: 200, Run: collide},
		},
	}
}

// trickle saves samples one batch at a time and asks after each.
func trickle(t *zv.T) {
	st := open(t, true)
	t.Cleanup(func() { st.Close() })
	m := &model{}
	f := &filler{t: t, m: m, r: t.Rand, opt: gen.Opt{Vocab: 2 + t.Rand.Intn(3), Max: 1, AtLeastOne: true}}
	for b := 0; b < 6; b++ {
		save(t, st, []*v1.Sample{f.sample(t.Rand.Intn(3), epoch, 50*time.Minute)})
		for i := 0; i < 10 && !t.Failed(); i++ {
			q := &query{signal: t.Rand.Intn(3), filters: m.filters(t)}
			if t.Rand.Intn(2) == 0 {
				q.now = epoch.Add(20 * time.Minute)
			} else {
				q.rng, q.start, q.end = true, epoch, epoch.Add(time.Hour)
			}
			n := m.expect(t, st, q)
			if n > 0 {
				t.Count("scans_with_matches", 1)
				t.Distinct(q.String(), n)
			}
		}
	}
}

func bitlen(v uint64) (n int) {
	for ; v > 0; v >>= 1 {
		n++
	}
	return
}

var _ = kit.Clone[*v1.Data]
