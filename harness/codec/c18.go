package main

import (
	"fmt"
	"math/rand"
	"sort"
	"time"

	"github.com/dgraph-io/badger/v4"
	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/bitmaps"
	"github.com/gernest/requiemdb/internal/dataframe"
	"github.com/gernest/requiemdb/internal/zverif/gen"
	"github.com/gernest/requiemdb/internal/zverif/kit"
	"github.com/gernest/requiemdb/internal/zverif/zv"
	"google.golang.org/protobuf/proto"
)

type frameRow struct {
	id   uint64
	sig  int
	at   time.Time
	data *v1.Data
}

var f0 = time.Date(2024, 2, 28, 22, 0, 0, 0, time.UTC)

func instant(r *rand.Rand, hours int) time.Time {
	ts := f0.Add(time.Duration(r.Intn(hours))*time.Hour + time.Duration(r.Int63n(int64(time.Hour))))
	switch r.Intn(12) {
	case 0:
		return ts.Truncate(time.Hour)
	case 1:
		return ts.Truncate(time.Hour).Add(time.Hour - 1)
	case 2:
		return ts.AddDate(0, r.Intn(3), r.Intn(5))
	}
	return ts
}

// reads asks for rows of a signal and a range.
func reads(t *zv.T, df *dataframe.DataFrame, rows []frameRow, r *rand.Rand) {
	sig := r.Intn(3)
	start := f0.Add(time.Duration(r.Intn(5)-1) * time.Hour)
	end := start.Add(time.Duration(1+r.Intn(5)) * time.Hour)
	switch r.Intn(6) {
	case 0:
		start, end = f0.AddDate(-1, 0, 0), f0.AddDate(1, 0, 0)
	case 1:
		start = f0.AddDate(0, 0, r.Intn(3)-1)
		end = start.AddDate(0, r.Intn(3), r.Intn(4))
	case 2:
		start = start.Add(time.Duration(r.Int63n(int64(time.Hour))))
		end = start.Add(time.Duration(r.Int63n(int64(5 * time.Hour))))
	}
	b := bitmaps.New()
	defer b.Release()
	asked := map[uint64]bool{}
	hi := rows[len(rows)-1].id
	mode := r.Intn(3)
	for _, x := range rows {
		if mode == 0 || (mode == 1 && r.Intn(2) == 0) || (mode == 2 && r.Intn(6) == 0) {
			asked[x.id] = true
			b.Add(x.id)
		}
	}
	for k := r.Intn(3); k > 0; k-- { // rows nobody has
		n := hi + 1 + uint64(r.Intn(5))
		b.Add(n)
		if hi > 0 {
			n = uint64(r.Int63n(int64(hi)))
			b.Add(n)
			asked[n] = true
		}
	}
	var got []*v1.Data
	var err error
	switch sig {
	case 0:
		got, err = df.Metrics(ctx, start, end, b)
	case 1:
		got, err = df.Logs(ctx, start, end, b)
	default:
		got, err = df.Traces(ctx, start, end, b)
	}
	t.Eval(1)
	if err != nil {
		t.Fatal("read-error", "%v", err)
	}
	type slot struct {
		h time.Time
		x frameRow
	}
	var want []slot
	for _, x := range rows {
		h := x.at.Truncate(time.Hour)
		if asked[x.id] && x.sig == sig && h.Before(end) && h.Add(time.Hour).After(start) && start.Before(end) {
			want = append(want, slot{h, x})
		}
	}
	if len(want) != len(got) {
		t.Fatal("read-count", "signal %d [%s, %s): %d rows of %d asked, want %d", sig, start, end, len(got), b.GetCardinality(), len(want))
	}
	// Ranges are covered by periods in order; inside a period rows come in id
	// order. Compare as multisets, then the order inside an hour.
	used := make([]bool, len(got))
	pos := map[uint64]int{}
	for _, w := range want {
		ok := false
		for i, g := range got {
			if !used[i] && proto.Equal(w.x.data, g) {
				used[i], ok = true, true
				pos[w.x.id] = i
				break
			}
		}
		if !ok {
			t.Fatal("read-wrong", "signal %d [%s, %s): sample %d is not among the %d answers unchanged", sig, start, end, w.x.id, len(got))
		}
	}
	sort.SliceStable(want, func(i, j int) bool { return want[i].x.id < want[j].x.id })
	if len(got) > 1 {
		t.Count("reads_of_several", 1)
	}
	if len(got) > 0 {
		t.Distinct(sig, start, end, len(got), fmt.Sprint(pos))
		t.Sample(map[string]any{"signal": sig, "start": start, "end": end, "answers": len(got), "rows_in_store": len(rows)})
	}
}

func propC18() *zv.Prop {
	run := func(t *zv.T, disk, sparse, large bool) {
		db, err := kit.DB(t.Dir, !disk)
		t.Must(err)
		t.Cleanup(func() { db.Close() })
		df := dataframe.New(db)
		var rows []frameRow
		next := uint64(t.Rand.Intn(3))
		if sparse {
			next = uint64(t.Rand.Intn(60000))
		}
		hours := 1 + t.Rand.Intn(3)
		batches := 2 + t.Rand.Intn(3)
		for b := 0; b < batches; b++ {
			var ls []*v1.Sample
			n := 1 + t.Rand.Intn(5)
			o := shape(t.Rand, t.Rand.Intn(2) == 0)
			if large {
				if t.Rand.Intn(2) == 0 {
					o = o.Large(t.Rand, 1500)
				} else {
					n = 1 + t.Rand.Intn(700)
				}
			}
			for ; n > 0; n-- {
				sig := t.Rand.Intn(3)
				if !large {
					o = shape(t.Rand, t.Rand.Intn(2) == 0)
				}
				d := gen.New(t.Rand, o).Data(sig)
				// make it recognisable, also when it is otherwise empty
				switch e := d.Data.(type) {
				case *v1.Data_Metrics:
					e.Metrics.ResourceMetrics = append(e.Metrics.ResourceMetrics, gen.MarkM(next))
				case *v1.Data_Logs:
					e.Logs.ResourceLogs = append(e.Logs.ResourceLogs, gen.MarkL(next))
				case *v1.Data_Traces:
					e.Traces.ResourceSpans = append(e.Traces.ResourceSpans, gen.MarkT(next))
				}
				at := instant(t.Rand, hours)
				rows = append(rows, frameRow{next, sig, at, kit.Clone(d)})
				ls = append(ls, &v1.Sample{Id: next, Data: d, MinTs: uint64(at.UnixNano()), MaxTs: uint64(at.UnixNano())})
				next++
				switch {
				case sparse && t.Rand.Intn(3) == 0:
					next += uint64(t.Rand.Intn(40000))
				case t.Rand.Intn(3) == 0:
					next += uint64(t.Rand.Intn(40))
				}
			}
			if err := df.Append(ctx, ls...); err != nil {
				t.Fatal("append-error", "%v", err)
			}
			t.Count("rows_appended", len(ls))
			if disk && t.Rand.Intn(2) == 0 {
				t.Must(db.Close())
				db, err = kit.DB(t.Dir, false)
				t.Must(err)
				df = dataframe.New(db)
				t.Count("reopened", 1)
			}
			for k := 0; k < 5; k++ {
				reads(t, df, rows, t.Rand)
			}
		}
	}
	_ = badger.ErrKeyNotFound
	return &zv.Prop{
		ID:   "C18",
		Rule: "an execution appends generated samples of all signals with gaps between ids over several hours, days and months in several batches (reopening in between on disk), and reads rows of a signal and range after each; non-empty reads are counted as distinct. The oracle is the list of appended samples",
		Assume: []string{
			"samples arrive in ascending id order, as the id sequence and the single flusher give them",
			"ranges name whole hours: a sample is found when its hour is touched",
		},
		Families: []zv.Family{
			{Name: "memory", Quick: 40, Thorough: 1500, Run: func(t *zv.T) { run(t, false, false, false) }},
			{Name: "disk", Quick: 25, Thorough: 1000, Run: func(t *zv.T) { run(t, true, false, false) }},
			{Name: "sparse", Quick: 7, Thorough: 200, Run: func(t *zv.T) { run(t, true, true, false) }},
			{Name: "large", Quick: 8, Thorough: 150, Run: func(t *zv.T) { run(t, true, false, true) }},
		},
	}
}
