package main

import (
	"fmt"
	"time"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/zverif/gen"
	"github.com/gernest/requiemdb/internal/zverif/kit"
	"github.com/gernest/requiemdb/internal/zverif/zv"
	"google.golang.org/protobuf/types/known/durationpb"
)

// instants near which samples are placed: ordinary hours and the edges of
// days, months, leap days and years.
var edges = []time.Time{
	epoch,
	time.Date(2024, 4, 3, 23, 0, 0, 0, time.UTC),
	time.Date(2024, 2, 28, 23, 0, 0, 0, time.UTC),
	time.Date(2024, 2, 29, 0, 0, 0, 0, time.UTC),
	time.Date(2023, 12, 31, 23, 0, 0, 0, time.UTC),
	time.Date(2024, 1, 31, 22, 0, 0, 0, time.UTC),
	time.Date(1999, 12, 31, 23, 0, 0, 0, time.UTC),
	time.Date(2100, 2, 28, 23, 0, 0, 0, time.UTC),
	time.Date(1970, 1, 1, 0, 0, 0, 0, time.UTC),
	time.Date(2199, 6, 30, 23, 0, 0, 0, time.UTC),
}

func near(t *zv.T, m *model) time.Time {
	r := t.Rand
	x := m.recs[r.Intn(len(m.recs))]
	at := time.Unix(0, int64(x.min)).UTC()
	switch r.Intn(9) {
	case 0:
		return at
	case 1:
		return at.Add(1)
	case 2:
		return at.Add(-1)
	case 3:
		return at.Truncate(time.Hour)
	case 4:
		return at.Truncate(time.Hour).Add(time.Hour)
	case 5:
		return at.Truncate(24 * time.Hour).Add(time.Duration(r.Intn(2)*24) * time.Hour)
	case 6:
		return time.Date(at.Year(), at.Month()+time.Month(r.Intn(2)), 1, 0, 0, 0, 0, time.UTC)
	case 7:
		return time.Date(at.Year()+r.Intn(2), 1, 1, 0, 0, 0, 0, time.UTC)
	default:
		return at.Add(time.Duration(r.Int63n(int64(5*time.Hour))) - 150*time.Minute)
	}
}

func (m *model) rangeQuery(t *zv.T) *query {
	r := t.Rand
	q := &query{signal: r.Intn(3), rng: true}
	q.start = near(t, m)
	switch r.Intn(7) {
	case 0:
		q.end = q.start.Add(time.Duration(1 + r.Int63n(int64(2*time.Hour))))
	case 1:
		q.end = q.start.Add(time.Duration(1 + r.Int63n(int64(40*24*time.Hour))))
	case 2:
		q.end = q.start.Add(time.Duration(1 + r.Int63n(int64(500*24*time.Hour))))
	case 3:
		q.start, q.end = time.Unix(0, 0).UTC(), near(t, m)
		if r.Intn(2) == 0 {
			q.start = time.Date(1+r.Intn(1969), time.Month(1+r.Intn(12)), 1, 0, 0, 0, r.Intn(1e9), time.UTC)
		}
	case 4:
		q.end = time.Date([]int{2262, 2263, 2555, 9999}[r.Intn(4)], 1, 1, 0, 0, 0, 0, time.UTC)
	default:
		q.end = near(t, m)
	}
	if q.end.Before(q.start) {
		q.start, q.end = q.end, q.start
	}
	if r.Intn(3) == 0 {
		q.filters = m.filters(t)
	}
	// the evaluation time does not matter when there is a range
	if r.Intn(4) == 0 {
		q.now = near(t, m)
		if r.Intn(2) == 0 {
			q.offset = time.Duration(r.Intn(100)) * time.Minute
		}
	}
	return q
}

func propC03() *zv.Prop {
	run := func(t *zv.T, zero int) {
		st := open(t, true)
		t.Cleanup(func() { st.Close() })
		m := &model{}
		f := &filler{t: t, m: m, r: t.Rand, opt: gen.Opt{Vocab: 2, Max: 2, AtLeastOne: true, ZeroTime: zero}}
		base := edges[t.Rand.Intn(len(edges))]
		if t.Rand.Intn(4) == 0 {
			base = time.Unix(t.Rand.Int63n(6e9), 0).UTC().Truncate(time.Hour)
		}
		far := edges[t.Rand.Intn(len(edges))]
		for b := 0; b < 2; b++ {
			var ls []*v1.Sample
			for n := 2 + t.Rand.Intn(3); n > 0; n-- {
				at := base.Add(time.Duration(t.Rand.Intn(3)) * time.Hour)
				if t.Rand.Intn(4) == 0 {
					at = far
				}
				span := []time.Duration{1, 50 * time.Minute, 30 * time.Hour}[t.Rand.Intn(3)]
				ls = append(ls, f.sample(t.Rand.Intn(3), at.Add(time.Duration(t.Rand.Int63n(int64(time.Hour)))*time.Duration(t.Rand.Intn(2))), span))
			}
			save(t, st, ls)
		}
		for i := 0; i < 60 && !t.Failed(); i++ {
			q := m.rangeQuery(t)
			n := m.expect(t, st, q)
			t.Count("range_scans", 1)
			if n > 0 {
				t.Count("range_scans_with_matches", 1)
				t.Distinct(q.start.Sub(base), q.end.Sub(base), n, base)
			}
			t.Max("range_hours", int(q.end.Sub(q.start)/time.Hour))
		}
		hs := map[uint64]bool{}
		for _, r := range m.recs {
			hs[r.min/hour] = true
			if r.min == 0 {
				t.Count("samples_of_unknown_time", 1)
			}
		}
		t.Max("hours", len(hs))
		t.Sample(map[string]any{"base": base, "samples": len(m.recs), "hours": len(hs)})
	}
	return &zv.Prop{
		ID:   "C03",
		Rule: "an execution saves samples around edges of hours, days, months, leap days and years and runs 60 range scans whose bounds sit on, next to and far from those samples; a scan counts as distinct by its bounds when samples match. The oracle requires every matching sample whose earliest known time is in [start,end), and nothing from hours the range does not touch",
		Assume: []string{
			"within an hour the range touches only partly, both answers are accepted for samples outside the range: the system resolves time to hours",
			"ranges inside 1970..2262, which nanosecond timestamps can express",
		},
		Families: []zv.Family{
			{Name: "edges", Quick: 72, Thorough: 2500, Run: func(t *zv.T) { run(t, 0) }},
			{Name: "unknown-times", Quick: 48, Thorough: 1500, Run: func(t *zv.T) { run(t, []int{2, 6, 9, 10}[t.Rand.Intn(4)]) }},
		},
	}
}

// propC04: a scan without time range answers with the latest matching sample.
func propC04() *zv.Prop {
	run := func(t *zv.T, wide int, clock bool, most int) {
		st := open(t, true)
		t.Cleanup(func() { st.Close() })
		m := &model{}
		f := &filler{t: t, m: m, r: t.Rand, opt: gen.Opt{Vocab: 2 + t.Rand.Intn(2), Max: 1 + t.Rand.Intn(2), AtLeastOne: true}}
		base := edges[t.Rand.Intn(len(edges))]
		if base.Unix() == 0 {
			base = base.Add(3 * time.Hour)
		}
		if clock {
			base = time.Now().UTC().Truncate(time.Hour).Add(-time.Duration(t.Rand.Intn(4)) * time.Hour)
		}
		for b := 0; b < 3; b++ {
			if b == 1 && wide > 0 {
				t.Must(st.Wide(wide))
			}
			var ls []*v1.Sample
			for n := 1 + t.Rand.Intn(most); n > 0; n-- {
				at := base.Add(time.Duration(t.Rand.Intn(150)) * time.Minute)
				ls = append(ls, f.sample(t.Rand.Intn(3), at, time.Duration(1+t.Rand.Intn(40))*time.Minute))
			}
			save(t, st, ls)
			for i := 0; i < 25 && !t.Failed(); i++ {
				q := &query{signal: t.Rand.Intn(3)}
				if t.Rand.Intn(2) == 0 {
					q.filters = m.filters(t)
				}
				q.now = near(t, m)
				if t.Rand.Intn(2) == 0 {
					q.now = base.Add(time.Duration(t.Rand.Intn(260)-30) * time.Minute)
				}
				if t.Rand.Intn(3) == 0 {
					// the offset moves the evaluation time back
					q.offset = time.Duration(t.Rand.Intn(90)) * time.Minute
					q.now = q.now.Add(time.Duration(t.Rand.Intn(2)) * q.offset)
				}
				sc := q.scan()
				atClock := clock && t.Rand.Intn(4) > 0
				if atClock {
					// without an evaluation time of its own the server's clock counts
					sc.Now = nil
					q.offset = time.Duration(t.Rand.Intn(5*60)-30) * time.Minute
					sc.Offset = durationpb.New(q.offset)
					if t.Rand.Intn(4) == 0 {
						q.offset, sc.Offset = 0, nil
					}
				}
				before := time.Now().UTC()
				got, err := st.St.Scan(ctx, sc)
				after := time.Now().UTC()
				t.Eval(1)
				if err != nil {
					t.Fatal("scan-error", "scan failed: %v\n%s", err, q)
				}
				if atClock {
					same := func(d time.Duration) bool {
						return before.Add(-d).Truncate(time.Hour).Equal(after.Add(-d).Truncate(time.Hour))
					}
					if !same(q.offset) || !same(q.offset+15*time.Minute) {
						continue // the hours of the window changed meanwhile
					}
					q.now = after
					t.Count("instant_scans_at_the_clock", 1)
					if q.offset != 0 {
						t.Count("instant_scans_at_the_clock_with_offset", 1)
					}
				}
				n := m.judge(t, got, q)
				t.Count("instant_scans", 1)
				if n > 0 {
					t.Count("instant_scans_with_matches", 1)
					d := []any{q.String(), n}
					if atClock {
						d = []any{q.signal, q.offset, q.filters, n, t.Case.Seed, i, b}
					}
					t.Distinct(d...)
				}
				if n > 1 {
					t.Count("instant_scans_choosing_among_several", 1)
				}
				t.Max("choices", n)
			}
		}
		t.Sample(map[string]any{"samples": len(m.recs), "base": base})
	}
	return &zv.Prop{
		ID:     "C04",
		Rule:   "an execution saves samples over a few hours in three batches and after each asks 25 scans without time range (evaluation time on, next to and away from samples and hour edges, with offsets and filters); the answer must be exactly the latest saved matching sample of the hours touched by the 15 minutes before the evaluation time. A scan counts as distinct when something matches",
		Assume: []string{"the 15-minute window is resolved to the hours it touches, as every time range is"},
		Families: []zv.Family{
			{Name: "near", Quick: 60, Thorough: 1800, Run: func(t *zv.T) { run(t, 0, false, 4) }},
			{Name: "clock", Quick: 48, Thorough: 1500, Run: func(t *zv.T) { run(t, 0, true, 4) }},
			{Name: "spread-labels", Quick: 24, Thorough: 400, Run: func(t *zv.T) { run(t, []int{17, 258}[t.Rand.Intn(2)], t.Rand.Intn(2) == 0, 4) }},
			{Name: "many", Quick: 6, Thorough: 100, Run: func(t *zv.T) { run(t, 0, t.Rand.Intn(2) == 0, 400) }},
		},
	}
}

// propC05: a clean restart changes nothing.
func propC05() *zv.Prop {
	run := func(t *zv.T, wide, most int) {
		m := &model{}
		f := &filler{t: t, m: m, r: t.Rand, opt: gen.Opt{Vocab: 3, Wild: t.Rand.Intn(2) == 0, Max: 2, AtLeastOne: true}}
		hours := 1 + t.Rand.Intn(3)
		gens := 2 + t.Rand.Intn(2)
		if wide > 0 {
			gens = 3
		}
		var seen []string
		for gnr := 0; gnr <= gens; gnr++ {
			st, err := kit.Open(t.Dir, false)
			if err != nil {
				t.Fatal("reopen", "opening generation %d failed: %v", gnr, err)
			}
			ask := func(n int) {
				for i := 0; i < n && !t.Failed() && len(m.recs) > 0; i++ {
					q := &query{signal: t.Rand.Intn(3), filters: m.filters(t)}
					if t.Rand.Intn(3) == 0 {
						q.now = epoch.Add(time.Duration(t.Rand.Intn(260)) * time.Minute)
					} else {
						q.rng, q.start = true, epoch
						q.end = epoch.Add(time.Duration(1+t.Rand.Intn(hours)) * time.Hour)
					}
					if k := m.expect(t, st, q); k > 0 {
						t.Count("scans_with_matches_after_restart", 1)
						t.Distinct(q.String(), k, gnr)
					}
				}
			}
			survived := func() {
				// the very first thing asked of a reopened store
				if len(m.recs) > 0 && t.Rand.Intn(2) == 0 {
					m.expect(t, st, &query{signal: m.recs[0].signal, rng: true, start: epoch, end: epoch.Add(72 * time.Hour)})
				}
				// labels indexed for each sample survive too
				for i, want := range seen {
					got, err := labelsAt(st, m.recs[i])
					t.Eval(1)
					if err != nil || got != want {
						t.Fatal("labels", "labels of sample %d were %s, after a restart they are %s (%v)", m.recs[i].id, want, got, err)
					}
				}
				ask(20)
			}
			// often a reopened store is saved to before anything is asked of it
			saveFirst := gnr > 0 && gnr < gens && t.Rand.Intn(2) == 0 || wide > 0 && gnr == 2
			if saveFirst {
				t.Count("saves_before_the_first_scan", 1)
			} else {
				survived()
			}
			if gnr < gens {
				if wide > 0 && (gnr == 1 || gnr > 0 && t.Rand.Intn(2) == 0) {
					t.Must(st.Wide(wide))
					f.opt.Vocab++
				}
				for b := 1 + t.Rand.Intn(2); b > 0; b-- {
					var ls []*v1.Sample
					for n := 1 + t.Rand.Intn(most); n > 0; n-- {
						s := f.sample(t.Rand.Intn(3), epoch.Add(time.Duration(t.Rand.Intn(hours))*time.Hour), 50*time.Minute)
						ls = append(ls, s)
					}
					save(t, st, ls)
				}
				if saveFirst {
					survived()
				}
				ask(10)
				seen = seen[:0]
				for _, r := range m.recs {
					s, err := labelsAt(st, r)
					if err != nil {
						t.Fatal("labels", "%v", err)
					}
					seen = append(seen, s)
				}
			}
			if err := st.Close(); err != nil {
				t.Fatal("close", "closing generation %d failed: %v", gnr, err)
			}
			t.Count("restarts", 1)
		}
		t.Sample(map[string]any{"generations": gens, "samples": len(m.recs)})
	}
	return &zv.Prop{
		ID:   "C05",
		Rule: "an execution runs the on-disk store through 3-4 open/save/scan/close generations in one directory and judges scans and the per-sample label index of every generation against all samples saved so far; distinct scans are those with matches, per generation",
		Families: []zv.Family{
			{Name: "generations", Quick: 48, Thorough: 1200, Run: func(t *zv.T) { run(t, 0, 3) }},
			{Name: "generations-spread", Quick: 16, Thorough: 200, Run: func(t *zv.T) { run(t, []int{17, 258, 258}[t.Rand.Intn(3)], 3) }},
			{Name: "many", Quick: 4, Thorough: 60, Run: func(t *zv.T) { run(t, 0, 300) }},
		},
	}
}

func labelsAt(st *kit.Stack, r *rec) (string, error) {
	at := time.Unix(0, int64(r.min)).UTC()
	ls, err := st.St.Labels("std_"+at.Format("2006010215"), r.id)
	return fmt.Sprintf("%q", ls), err
}

// propC29: limit and reverse.
func propC29() *zv.Prop {
	run := func(t *zv.T, most, step int) {
		st := open(t, most == 6)
		t.Cleanup(func() { st.Close() })
		m := &model{}
		f := &filler{t: t, m: m, r: t.Rand, opt: gen.Opt{Vocab: 2, Max: 1, AtLeastOne: true}}
		hours := 1 + t.Rand.Intn(3)
		n := 0
		at := epoch
		favourite := t.Rand.Intn(3)
		for b := 0; b < 2; b++ {
			var ls []*v1.Sample
			for k := 2 + t.Rand.Intn(most); k > 0; k-- {
				sig := t.Rand.Intn(3)
				if most > 6 && t.Rand.Intn(8) > 0 {
					sig = favourite
				}
				s := f.sample(sig, at, time.Second)
				// each sample is a resource of its own: answers keep the order of samples
				gen.Tag(s.Data, n)
				r := m.recs[len(m.recs)-1]
				r.data = kit.Clone(s.Data)
				r.labels = gen.LabelsOf(r.data)
				n++
				ls = append(ls, s)
				at = at.Add(time.Duration(t.Rand.Intn(step)) * time.Second)
				if last := epoch.Add(time.Duration(hours)*time.Hour - 2*time.Second); at.After(last) {
					at = last
				}
			}
			save(t, st, ls)
		}
		// the numbers people ask for
		var round []uint64
		for k := uint64(1); most > 6 && k <= 2048; k *= 2 {
			round = append(round, k-1, k, k+1, k/8*10, k*10)
		}
		for i := 0; i < 50+len(round) && !t.Failed(); i++ {
			q := &query{signal: t.Rand.Intn(3), rng: true, start: epoch, end: epoch.Add(time.Duration(1+t.Rand.Intn(hours)) * time.Hour)}
			if i < 50 && t.Rand.Intn(3) == 0 {
				q.filters = m.filters(t)
			}
			if i >= 50 && t.Rand.Intn(4) > 0 {
				q.signal = favourite
			}
			must, _ := m.match(q, q.start, q.end)
			s := q.scan()
			s.Reverse = t.Rand.Intn(2) == 0
			if t.Rand.Intn(4) > 0 {
				s.Limit = uint64(t.Rand.Intn(len(must) + 3))
			}
			if t.Rand.Intn(20) == 0 {
				s.Limit = 1 << 63
			}
			if i >= 50 {
				s.Limit = round[i-50]
				if s.Limit > uint64(len(must))+10 {
					continue
				}
			}
			var want []string
			for _, r := range must {
				want = append(want, fmt.Sprint("sample-", gen.TagOf(r.data)))
			}
			if s.Limit > 0 && s.Limit < uint64(len(want)) {
				if s.Reverse {
					want = want[uint64(len(want))-s.Limit:]
				} else {
					want = want[:s.Limit]
				}
				t.Count("scans_cut_by_limit", 1)
			}
			if s.Reverse {
				x := make([]string, 0, len(want))
				for j := len(want) - 1; j >= 0; j-- {
					x = append(x, want[j])
				}
				want = x
			}
			got, err := st.St.Scan(ctx, s)
			t.Eval(1)
			if err != nil {
				t.Fatal("scan-error", "%v", err)
			}
			if bad := wrongShape(got, q.signal); bad != "" {
				t.Fatal("wrong-shape", "%s", bad)
			}
			have := gen.TagsOf(got)
			if fmt.Sprint(have) != fmt.Sprint(want) {
				t.Fatal("limit", "limit %d reverse %v: want samples %v got %v\n%s", s.Limit, s.Reverse, want, have, q)
			}
			if len(want) > 0 {
				t.Distinct(q.String(), s.Limit, s.Reverse, want)
				t.Count("scans_with_matches", 1)
			}
			if s.Reverse && len(want) > 1 {
				t.Count("reversed_answers", 1)
			}
		}
		t.Sample(map[string]any{"samples": n})
	}
	return &zv.Prop{
		ID:     "C29",
		Rule:   "an execution saves samples in time order, each its own resource, and runs 50 scans with generated limits (0, below, at and above the number of matches, huge) and orders; the sequence of samples in the answer must be the first/last matching ones in the requested order. A scan counts as distinct when something matches",
		Assume: []string{"samples arrive in the order of their time and ranges are whole hours, so that which samples come first is defined"},
		Families: []zv.Family{
			{Name: "limits", Quick: 72, Thorough: 2500, Run: func(t *zv.T) { run(t, 6, 20*60) }},
			{Name: "many", Quick: 8, Thorough: 120, Run: func(t *zv.T) { run(t, 600, 10) }},
		},
	}
}
