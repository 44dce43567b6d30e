package main

import (
	"context"
	"fmt"
	"math/rand"
	"time"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/zverif/gen"
	"github.com/gernest/requiemdb/internal/zverif/kit"
	"github.com/gernest/requiemdb/internal/zverif/zv"
	"google.golang.org/protobuf/proto"
)

var ctx = context.Background()

var epoch = time.Date(2024, 4, 3, 14, 0, 0, 0, time.UTC)

func open(t *zv.T, mem bool) *kit.Stack {
	s, err := kit.Open(t.Dir, mem)
	t.Must(err)
	return s
}

// fill saves batches of generated samples and remembers them in the model.
// hours are the hours (since epoch) that samples fall in.
type filler struct {
	t    *zv.T
	m    *model
	opt  gen.Opt
	next uint64
	r    *rand.Rand
}

func (f *filler) sample(signal int, at time.Time, span time.Duration) *v1.Sample {
	o := f.opt
	o.TimeLo = uint64(at.UnixNano())
	o.TimeHi = o.TimeLo + uint64(span)
	g := gen.New(f.r, o)
	d := g.Data(signal)
	id := f.next
	f.next++
	f.m.add(id, signal, kit.Clone(d))
	return &v1.Sample{Id: id, Data: d}
}

func save(t *zv.T, st *kit.Stack, batch []*v1.Sample) {
	if err := st.Save(batch...); err != nil {
		t.Fatal("save-error", "saving %d samples failed: %v", len(batch), err)
	}
}

// rounds are numbers of samples at which something may begin or end.
var rounds = []int{2, 4, 8, 10, 16, 20, 32, 50, 64, 100, 128, 200, 250, 256, 500, 512, 1000, 1024, 2000, 2048}

// C01: whatever is saved comes back complete and unchanged.
func propC01() *zv.Prop {
	run := func(t *zv.T, wild bool, size int) {
		// in memory, values are limited to 1 MiB
		st := open(t, size == 0)
		t.Cleanup(func() { st.Close() })
		m := &model{}
		f := &filler{t: t, m: m, r: t.Rand, opt: gen.Opt{Vocab: 3 + t.Rand.Intn(4), Wild: wild, Max: 1 + t.Rand.Intn(3), AtLeastOne: t.Rand.Intn(3) > 0}}
		most := 4
		switch size {
		case 1: // large samples
			f.opt = f.opt.Large(t.Rand, 2000)
		case 2: // many samples
			f.opt.Max = 1
			most = 1200
		case 3: // a round number of samples of one signal in one hour
			f.opt.Max = 1
		}
		if t.Rand.Intn(2) == 0 {
			f.next = uint64(t.Rand.Intn(3))
		}
		nb := 1 + t.Rand.Intn(4)
		if size > 0 {
			nb = 1 + t.Rand.Intn(2)
		}
		hours := 1 + t.Rand.Intn(3)
		for b := 0; b < nb; b++ {
			var ls []*v1.Sample
			n := 1 + t.Rand.Intn(most)
			if size == 3 {
				n = rounds[t.Case.Index%len(rounds)] / nb
			}
			for ; n > 0; n-- {
				h := t.Rand.Intn(hours)
				sig := t.Rand.Intn(3)
				if size == 3 {
					h, sig = 0, t.Case.Index%3
				}
				ls = append(ls, f.sample(sig, epoch.Add(time.Duration(h)*time.Hour), 50*time.Minute))
			}
			save(t, st, ls)
		}
		shape := ""
		for sig := 0; sig < 3; sig++ {
			// the whole period
			n := m.expect(t, st, &query{signal: sig, rng: true, start: epoch, end: epoch.Add(time.Duration(hours) * time.Hour)})
			t.Count("samples_conserved", n)
			shape += fmt.Sprint(n, ",")
			// hour by hour
			for h := 0; h < hours; h++ {
				s := epoch.Add(time.Duration(h) * time.Hour)
				m.expect(t, st, &query{signal: sig, rng: true, start: s, end: s.Add(time.Hour)})
			}
		}
		// one sample alone must come back byte for byte: the last of each signal in each hour
		for _, r := range m.recs {
			if len(gen.Leaves(r.data)) == 0 {
				continue
			}
			alone := true
			for _, o := range m.recs {
				if o != r && o.signal == r.signal && o.min/hour == r.min/hour {
					alone = false
				}
			}
			if !alone {
				continue
			}
			s := time.Unix(0, int64(r.min-r.min%hour)).UTC()
			q := &query{signal: r.signal, rng: true, start: s, end: s.Add(time.Hour)}
			got, err := st.St.Scan(ctx, q.scan())
			t.Eval(1)
			if err != nil {
				t.Fatal("scan-error", "%v\n%s", err, q)
			}
			t.Count("samples_compared_exactly", 1)
			if !proto.Equal(got, r.data) {
				t.Fail("changed", "sample %d came back changed\n%s\n%s", r.id, q, kit.Diff(r.data, got))
			}
		}
		for _, r := range m.recs {
			t.Count("leaves_saved", len(gen.Leaves(r.data)))
		}
		t.Max("samples", len(m.recs))
		t.Count("batches", nb)
		t.Distinct(shape, nb, hours, len(m.recs), gen.Bytes(m.recs[0].data))
		t.Sample(map[string]any{"batches": nb, "hours": hours, "samples": len(m.recs), "conserved_per_signal": shape})
	}
	return &zv.Prop{
		ID:   "C01",
		Rule: "an execution saves generated OTLP samples (three signals, 1-4 batches, 1-3 hours) and reads them back by whole period, hour by hour and one by one; oracle: the multiset of data points, records and spans with their resource, scope and metric is conserved, and a sample alone in its hour comes back equal message for message. Executions count as distinct by shape and content of the first sample",
		Families: []zv.Family{
			{Name: "plain", Quick: 60, Thorough: 1500, Run: func(t *zv.T) { run(t, false, 0) }},
			{Name: "wild", Quick: 60, Thorough: 1500, Run: func(t *zv.T) { run(t, true, 0) }},
			{Name: "large", Quick: 20, Thorough: 400, Run: func(t *zv.T) { run(t, t.Rand.Intn(3) == 0, 1) }},
			{Name: "rounds", Quick: len(rounds), Thorough: 10 * len(rounds), Run: func(t *zv.T) { run(t, false, 3) }},
			{Name: "bulk", Quick: 10, Thorough: 200, Run: func(t *zv.T) { run(t, t.Rand.Intn(3) == 0, 2) }},
		},
	}
}
