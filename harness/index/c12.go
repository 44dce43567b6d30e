package main

import (
	"fmt"
	"math/rand"
	"sync"
	"time"

	"github.com/gernest/requiemdb/internal/batch"
	"github.com/gernest/requiemdb/internal/zverif/zv"
	"github.com/gernest/roaring/shardwidth"
)

type fragKey struct {
	shard uint64
	view  string
}

func moment(r *rand.Rand) time.Time {
	switch r.Intn(4) {
	case 0: // around calendar edges
		y, mo := 1970+r.Intn(290), time.Month(1+r.Intn(12))
		return time.Date(y, mo, 1, 0, 0, 0, 0, time.UTC).Add(time.Duration(r.Intn(5)-2) * time.Nanosecond)
	case 1:
		return time.Unix(0, r.Int63()).UTC()
	case 2:
		return time.Unix(0, 0).UTC()
	default:
		return t0.Add(time.Duration(r.Int63n(int64(4 * time.Hour))))
	}
}

// fragments is the specification of the index entries of a batch.
func fragments(es []*entry) map[fragKey]map[uint64]bool {
	w := uint64(shardwidth.ShardWidth)
	o := map[fragKey]map[uint64]bool{}
	for _, e := range es {
		for c := range e.cols {
			for _, f := range []string{"2006", "200601", "20060102", "2006010215"} {
				k := fragKey{c / w, "std_" + e.at.Format(f)}
				if o[k] == nil {
					o[k] = map[uint64]bool{}
				}
				o[k][e.id*w+c%w] = true
			}
		}
	}
	return o
}

func judgeFragments(t *zv.T, what string, want map[fragKey]map[uint64]bool, f batch.Fragments) {
	t.Eval(1)
	n := 0
	for shard, views := range f {
		for view, bm := range views {
			got := bm.Slice()
			if len(got) == 0 {
				continue
			}
			n++
			w := want[fragKey{shard, view}]
			if len(got) != len(w) {
				t.Fatal("fragment", "%s: shard %d view %s has %d positions, want %d", what, shard, view, len(got), len(w))
			}
			for _, p := range got {
				if !w[p] {
					t.Fatal("fragment", "%s: shard %d view %s has position %d (row %d) which belongs elsewhere", what, shard, view, p, p/shardwidth.ShardWidth)
				}
			}
		}
	}
	if n != len(want) {
		t.Fatal("fragment-set", "%s: %d fragments, want %d", what, n, len(want))
	}
}

func buildSeveral(t *zv.T, r *rand.Rand, bulk bool) {
	b := batch.New()
	m := &ref{}
	var prev batch.Fragments
	var prevWant map[fragKey]map[uint64]bool
	for k := 0; k < 4; k++ {
		pool := columnPool(r)
		var es []*entry
		n := r.Intn(6)
		if bulk {
			n = r.Intn(1500)
		}
		for ; n > 0; n-- {
			e := m.draw(r, uint64(r.Int63n(1<<uint(1+r.Intn(40)))), pool)
			e.at = moment(r)
			if r.Intn(8) == 0 {
				e.cols = map[uint64]bool{}
			}
			if bulk && r.Intn(200) == 0 {
				from, step := uint64(r.Intn(5))<<16, uint64(1+r.Intn(300))
				for k := uint64(r.Intn(9000)); k > 0; k-- {
					e.cols[from+k*step] = true
				}
			}
			es = append(es, e)
			b.Add(e.id, e.at, e.bitmap())
		}
		f, err := b.Build()
		if err != nil {
			t.Fatal("error", "Build: %v", err)
		}
		want := fragments(es)
		judgeFragments(t, fmt.Sprintf("build %d", k), want, f)
		if prev != nil {
			judgeFragments(t, fmt.Sprintf("build %d looked at again after build %d", k-1, k), prevWant, prev)
		}
		prev, prevWant = f, want
		if len(want) > 4 {
			t.Count("fragments", len(want))
			t.Distinct(len(es), len(want), fmt.Sprint(es[0].id, es[0].at, few(es[0].columns())))
			t.Sample(map[string]any{"rows": len(es), "fragments": len(want), "build": k})
		}
	}
}

func propC12() *zv.Prop {
	return &zv.Prop{
		ID:   "C12",
		Rule: "an execution builds several batches of rows (any ids, times, columns in several shards) one after another from one builder; distinct batches with more than four fragments are counted. The oracle computes every fragment from the definition",
		Assume: []string{
			"times are UTC between 1970 and 2262",
		},
		Families: []zv.Family{
			{Name: "build", Quick: 480 * 8, Thorough: 6000, Run: func(t *zv.T) {
				for i := 0; i < 25; i++ {
					buildSeveral(t, t.Rand, false)
				}
			}},
			{Name: "bulk", Quick: 60, Thorough: 800, Run: func(t *zv.T) { buildSeveral(t, t.Rand, true) }},
			{Name: "parallel", Quick: 120 * 8, Thorough: 1000, Run: func(t *zv.T) {
				var wg sync.WaitGroup
				for w := 0; w < 6; w++ {
					r := rand.New(rand.NewSource(t.Rand.Int63()))
					wg.Add(1)
					go func() {
						defer wg.Done()
						defer func() {
							if e := recover(); e != nil && !t.Failed() {
								t.Fail("panic", "building in parallel: %v", e)
							}
						}()
						for i := 0; i < 8; i++ {
							buildSeveral(t, r, false)
						}
					}()
				}
				wg.Wait()
			}},
		},
	}
}
