package main

import (
	"context"
	"fmt"
	"math"
	"sort"
	"time"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/labels"
	"github.com/gernest/requiemdb/internal/zverif/gen"
	"github.com/gernest/requiemdb/internal/zverif/kit"
	"github.com/gernest/requiemdb/internal/zverif/zv"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/durationpb"
	"google.golang.org/protobuf/types/known/timestamppb"
)

// rec is a saved sample as the reference model remembers it.
type rec struct {
	id     uint64
	signal int
	data   *v1.Data
	min    uint64
	labels map[gen.Label]bool
	sorted []gen.Label
}

// model is the reference: a list of samples.
type model struct{ recs []*rec }

func (m *model) add(id uint64, signal int, d *v1.Data) *rec {
	r := &rec{id: id, signal: signal, data: d, min: gen.MinTime(d), labels: gen.LabelsOf(d)}
	m.recs = append(m.recs, r)
	return r
}

// query is a scan in the model's terms.
type query struct {
	signal  int
	filters []gen.Label
	rng     bool
	start   time.Time
	end     time.Time
	now     time.Time
	offset  time.Duration
}

func (q *query) scan() *v1.Scan {
	s := &v1.Scan{Scope: gen.ScopeOf(q.signal)}
	for _, f := range q.filters {
		s.Filters = append(s.Filters, f.Filter())
	}
	if q.rng {
		s.TimeRange = &v1.Scan_TimeRange{Start: timestamppb.New(q.start), End: timestamppb.New(q.end)}
	}
	if !q.now.IsZero() {
		s.Now = timestamppb.New(q.now)
	}
	if q.offset != 0 {
		s.Offset = durationpb.New(q.offset)
	}
	return s
}

func clip(s string) string {
	if len(s) > 600 {
		return s[:300] + "…" + s[len(s)-300:]
	}
	return s
}

func (q *query) String() string {
	return fmt.Sprintf("signal=%s filters=%s range=%v [%s, %s) now=%s offset=%s", gen.ScopeOf(q.signal), clip(fmt.Sprint(q.filters)), q.rng,
		q.start.Format(time.RFC3339Nano), q.end.Format(time.RFC3339Nano), q.now.Format(time.RFC3339Nano), q.offset)
}

const hour = uint64(time.Hour)

// nanos is t, or the first or last time with nanoseconds since 1970.
func nanos(t time.Time) int64 {
	switch {
	case t.Before(time.Unix(0, math.MinInt64)):
		return math.MinInt64
	case t.After(time.Unix(0, math.MaxInt64)):
		return math.MaxInt64
	}
	return t.UnixNano()
}

// match splits the samples that carry every filter into those a scan of
// [start,end) must return (their earliest time is in the range) and those it
// may return because they fall in an hour the range touches.
func (m *model) match(q *query, start, end time.Time) (must, may []*rec) {
	s, e := nanos(start), nanos(end)
	for _, r := range m.recs {
		if r.signal != q.signal {
			continue
		}
		ok := true
		for _, f := range q.filters {
			if !r.labels[f] {
				ok = false
				break
			}
		}
		if !ok {
			continue
		}
		ts := int64(r.min)
		h := int64(r.min - r.min%hour)
		switch {
		case ts >= s && ts < e:
			must = append(must, r)
		case h < e && h+int64(hour) > s && s < e:
			may = append(may, r)
		}
	}
	return
}

// expect runs the scan and judges the answer against the model.
func (m *model) expect(t *zv.T, st *kit.Stack, q *query) (nmatch int) {
	got, err := st.St.Scan(context.Background(), q.scan())
	t.Eval(1)
	if err != nil {
		t.Fail("scan-error", "scan failed: %v\n%s", err, q)
		return
	}
	return m.judge(t, got, q)
}

func (m *model) judge(t *zv.T, got *v1.Data, q *query) (nmatch int) {
	if bad := wrongShape(got, q.signal); bad != "" {
		t.Fail("wrong-shape", "%s\n%s", bad, q)
		return
	}
	if !q.rng {
		// Instant: the latest matching sample of the lookback window.
		now := q.now.Add(-q.offset)
		must, may := m.match(q, now.Add(-15*time.Minute), now)
		all := append(must, may...)
		sort.Slice(all, func(i, j int) bool { return all[i].id < all[j].id })
		if len(all) == 0 {
			if n := len(gen.Leaves(got)); n > 0 {
				t.Fail("instant-unexpected", "instant scan returned %d points but nothing matches\n%s", n, q)
			}
			return
		}
		last := all[len(all)-1]
		if !proto.Equal(got, last.data) {
			which := "no saved sample"
			for _, r := range m.recs {
				if proto.Equal(got, r.data) {
					which = fmt.Sprintf("sample %d", r.id)
				}
			}
			t.Fail("instant-wrong", "instant scan must return sample %d (the latest of %d matching), it returned %s\n%s\n%s", last.id, len(all), which, q, kit.Diff(last.data, got))
		}
		return len(all)
	}
	must, may := m.match(q, q.start, q.end)
	// Which samples are in the answer is decided by conservation of their
	// leaves: those that must be there, plus any subset of those that may.
	var all []*rec
	all = append(all, must...)
	all = append(all, may...)
	want := map[string]int{}
	for _, r := range must {
		for k, n := range gen.Multiset(r.data) {
			want[k] += n
		}
	}
	have := gen.Multiset(got)
	full := map[string]int{}
	for k, n := range want {
		full[k] = n
	}
	for _, r := range may {
		for k, n := range gen.Multiset(r.data) {
			full[k] += n
		}
	}
	for k, n := range want {
		if have[k] < n {
			t.Fail("range-missing", "%d matching samples; %s\n%s", len(must), gen.DiffMultiset(full, have), q)
			return len(all)
		}
	}
	for k, n := range have {
		if n > full[k] {
			t.Fail("range-unexpected", "%d matching samples (+%d of touched hours); %s\n%s", len(must), len(may), gen.DiffMultiset(full, have), q)
			return len(all)
		}
	}
	var ds []*v1.Data
	for _, r := range all {
		ds = append(ds, r.data)
	}
	if x := gen.HeadsOf(ds...).Foreign(got); x != "" {
		t.Fail("range-head", "%d matching samples (+%d of touched hours); %s\n%s", len(must), len(may), x, q)
	}
	return len(all)
}

// wrongShape checks that the answer is a document of the requested signal.
func wrongShape(d *v1.Data, signal int) string {
	if d == nil {
		return "the answer is nil, not a document"
	}
	ok := false
	switch d.Data.(type) {
	case *v1.Data_Metrics:
		ok = signal == 0
	case *v1.Data_Logs:
		ok = signal == 1
	case *v1.Data_Traces:
		ok = signal == 2
	}
	if !ok {
		return fmt.Sprintf("the answer is a %T document for signal %s", d.Data, gen.ScopeOf(signal))
	}
	return ""
}

// key is the label as the store's dictionary knows it (only to report how far
// the label ids of an execution were spread).
func key(signal int, l gen.Label) []byte {
	return labels.NewLabel().WithResource(v1.RESOURCE(gen.ScopeOf(signal))).WithPrefix(v1.PREFIX(l.Prop)).WithKey(l.Key).WithValue(l.Val).Encode()
}
