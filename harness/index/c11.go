package main

import (
	"errors"
	"fmt"
	"io"
	"math/rand"
	"path/filepath"
	"sort"
	"sync"
	"time"

	"github.com/gernest/rbf"
	"github.com/gernest/requiemdb/internal/batch"
	"github.com/gernest/requiemdb/internal/bitmaps"
	"github.com/gernest/requiemdb/internal/shards"
	"github.com/gernest/requiemdb/internal/zverif/zv"
	"github.com/gernest/roaring/shardwidth"
)

// entry is one indexed sample in the reference.
type entry struct {
	id   uint64
	at   time.Time
	cols map[uint64]bool
}

type ref struct{ ls []*entry }

var t0 = time.Date(2023, 12, 31, 21, 0, 0, 0, time.UTC)

func (e *entry) bitmap() *bitmaps.Bitmap {
	b := bitmaps.New()
	for c := range e.cols {
		b.Add(c)
	}
	return b
}

func (e *entry) columns() []uint64 {
	var o []uint64
	for c := range e.cols {
		o = append(o, c)
	}
	sort.Slice(o, func(i, j int) bool { return o[i] < o[j] })
	return o
}

// few shows the beginning of a list.
func few(ls []uint64) string {
	if len(ls) > 20 {
		return fmt.Sprintf("%v… (%d)", ls[:20], len(ls))
	}
	return fmt.Sprint(ls)
}

func (e *entry) has(cs []uint64) bool {
	for _, c := range cs {
		if !e.cols[c] {
			return false
		}
	}
	return true
}

// pool draws columns from few places, so that they repeat: within a container,
// in other containers of a shard, in other shards.
func columnPool(r *rand.Rand) []uint64 {
	w := uint64(shardwidth.ShardWidth)
	var o []uint64
	for i := 0; i < 10; i++ {
		var c uint64
		switch r.Intn(6) {
		case 0, 1:
			c = uint64(r.Intn(40))
		case 2:
			c = uint64(r.Intn(16))<<16 + uint64(r.Intn(4))
		case 3:
			c = w*uint64(1+r.Intn(3)) + uint64(r.Intn(4))
		case 4:
			c = w*uint64(1+r.Intn(3)) - uint64(1+r.Intn(2))
		case 5:
			c = w*uint64(r.Intn(5)) + uint64(r.Intn(16))<<16 + 65535
		}
		o = append(o, c)
	}
	return o
}

func (m *ref) draw(r *rand.Rand, id uint64, pool []uint64) *entry {
	e := &entry{id: id, at: t0.Add(time.Duration(r.Int63n(int64(6 * time.Hour)))), cols: map[uint64]bool{}}
	if r.Intn(8) == 0 {
		e.at = e.at.AddDate(0, r.Intn(14), r.Intn(20))
	}
	for n := 1 + r.Intn(6); n > 0; n-- {
		e.cols[pool[r.Intn(len(pool))]] = true
	}
	return e
}

// insert writes a batch of entries as the store does.
func insert(idx *shards.Shards, es ...*entry) error {
	b := batch.New()
	for _, e := range es {
		b.Add(e.id, e.at, e.bitmap())
	}
	f, err := b.Build()
	if err != nil {
		return err
	}
	for shard, views := range f {
		err := idx.Update(shard, func(tx *rbf.Tx) error {
			for name, bm := range views {
				if _, err := tx.AddRoaring(name, bm); err != nil {
					return err
				}
			}
			return nil
		})
		if err != nil {
			return err
		}
	}
	return nil
}

// search judges one lookup.
func (m *ref) search(t *zv.T, idx *shards.Shards, r *rand.Rand, pool []uint64) {
	var cs []uint64
	if r.Intn(2) == 0 && len(m.ls) > 0 {
		e := m.ls[r.Intn(len(m.ls))]
		for c := range e.cols {
			cs = append(cs, c)
		}
		sort.Slice(cs, func(i, j int) bool { return cs[i] < cs[j] })
		r.Shuffle(len(cs), func(i, j int) { cs[i], cs[j] = cs[j], cs[i] })
		cs = cs[:1+r.Intn(len(cs))]
	} else {
		for n := 1 + r.Intn(3); n > 0; n-- {
			cs = append(cs, pool[r.Intn(len(pool))])
		}
	}
	if r.Intn(12) == 0 {
		cs = append(cs, uint64(r.Int63n(1<<24))) // most likely a column nobody has
	}
	start := t0.Add(time.Duration(r.Intn(8)-1) * time.Hour)
	end := start.Add(time.Duration(1+r.Intn(8)) * time.Hour)
	switch r.Intn(6) {
	case 0:
		start, end = t0.AddDate(-2, 0, 0), t0.AddDate(3, 0, 0)
	case 1:
		start = t0.Add(time.Duration(r.Int63n(int64(8 * time.Hour))))
		end = start.Add(time.Duration(r.Int63n(int64(8*time.Hour))) + 1)
	case 2:
		start = t0.AddDate(0, r.Intn(4), 0)
		end = start.AddDate(0, r.Intn(5), r.Intn(3))
	}
	b := bitmaps.New()
	for _, c := range cs {
		b.Add(c)
	}
	got, err := idx.Rows(start, end, b)
	t.Eval(1)
	if err != nil {
		t.Fatal("rows-error", "Rows: %v", err)
	}
	want := map[uint64]bool{}
	spread := map[uint64]bool{}
	for _, c := range cs {
		spread[c/shardwidth.ShardWidth] = true
	}
	for _, e := range m.ls {
		h := e.at.Truncate(time.Hour)
		if e.has(cs) && h.Before(end) && h.Add(time.Hour).After(start) && start.Before(end) {
			want[e.id] = true
		}
	}
	have := map[uint64]bool{}
	if got != nil {
		it := got.Iterator()
		for it.HasNext() {
			have[it.Next()] = true
		}
	}
	for id := range want {
		if !have[id] {
			t.Fatal("rows-missing", "Rows[%s, %s) of columns %s misses row %d (%d of %d expected rows returned)", start, end, few(cs), id, len(have), len(want))
		}
	}
	for id := range have {
		if !want[id] {
			t.Fatal("rows-unexpected", "Rows[%s, %s) of columns %s returns row %d which does not match (%d expected)", start, end, few(cs), id, len(want))
		}
	}
	if len(want) > 0 {
		t.Count("searches_with_matches", 1)
		t.Count(fmt.Sprintf("searches_with_matches_over_%d_shards", len(spread)), 1)
		t.Distinct(start, end, fmt.Sprint(cs), len(want))
	}
}

// rows judges the columns of every row, in the view of its hour, day and year.
func (m *ref) rows(t *zv.T, idx *shards.Shards, r *rand.Rand, some bool) {
	for _, e := range m.ls {
		if some && r.Intn(4) > 0 {
			continue
		}
		view := "std_" + e.at.Format([]string{"2006", "200601", "20060102", "2006010215"}[r.Intn(4)])
		row, err := idx.Row(view, e.id)
		t.Eval(1)
		if err != nil {
			t.Fatal("row-error", "Row(%s, %d): %v", view, e.id, err)
		}
		got := map[uint64]bool{}
		last, first := uint64(0), true
		for _, c := range row.Columns() {
			if !first && c <= last {
				t.Fatal("row-order", "Row(%s, %d): columns out of order", view, e.id)
			}
			last, first = c, false
			got[c] = true
		}
		if len(got) != len(e.cols) {
			t.Fatal("row-columns", "Row(%s, %d) has columns %s, saved were %s", view, e.id, few(row.Columns()), few(e.columns()))
		}
		for c := range e.cols {
			if !got[c] {
				t.Fatal("row-columns", "Row(%s, %d) has columns %s, saved were %s", view, e.id, few(row.Columns()), few(e.columns()))
			}
		}
		if n := row.Count(); n != uint64(len(e.cols)) {
			t.Fatal("row-count", "Row(%s, %d) counts %d columns, saved were %d", view, e.id, n, len(e.cols))
		}
	}
}

// all judges that every shard is visited once, and errors and io.EOF end it.
func (m *ref) all(t *zv.T, idx *shards.Shards) {
	want := map[uint64]bool{}
	for _, e := range m.ls {
		for c := range e.cols {
			want[c/shardwidth.ShardWidth] = true
		}
	}
	seen := map[uint64]int{}
	t.Eval(1)
	if err := idx.AllShards(func(tx *rbf.Tx, shard uint64) error { seen[shard]++; return nil }); err != nil {
		t.Fatal("all-error", "AllShards: %v", err)
	}
	for s := range want {
		if seen[s] != 1 {
			t.Fatal("all-shards", "AllShards visits shard %d %d times, it has data", s, seen[s])
		}
	}
	if len(want) < 1 {
		return
	}
	n := 0
	if err := idx.AllShards(func(*rbf.Tx, uint64) error { n++; return io.EOF }); err != nil || n != 1 {
		t.Fatal("all-eof", "io.EOF from the callback: %d more calls, error %v", n-1, err)
	}
	bad := errors.New("bad")
	n = 0
	if err := idx.AllShards(func(*rbf.Tx, uint64) error { n++; return bad }); !errors.Is(err, bad) || n != 1 {
		t.Fatal("all-err", "error from the callback: %d more calls, error %v", n-1, err)
	}
}

func propC11() *zv.Prop {
	history := func(t *zv.T, bulk bool) {
		dir := filepath.Join(t.Dir, "index")
		idx := shards.New(dir, nil)
		m := &ref{}
		pool := columnPool(t.Rand)
		next := uint64(t.Rand.Intn(3))
		for step := 0; step < 12; step++ {
			switch t.Rand.Intn(8) {
			case 0, 1, 2:
				var es []*entry
				n := 1 + t.Rand.Intn(8)
				if bulk {
					n = 1 + t.Rand.Intn(700)
				}
				for ; n > 0; n-- {
					e := m.draw(t.Rand, next, pool)
					if bulk && t.Rand.Intn(100) == 0 { // many columns, in one place or anywhere
						from, step := uint64(t.Rand.Intn(5))<<16, uint64(1+t.Rand.Intn(300))
						for k := uint64(t.Rand.Intn(9000)); k > 0; k-- {
							e.cols[from+k*step] = true
						}
					}
					es = append(es, e)
					next++
					if bulk && t.Rand.Intn(300) == 0 {
						next += uint64(t.Rand.Intn(1 << 20))
					}
					if t.Rand.Intn(10) == 0 {
						next += uint64(t.Rand.Intn(2000))
					}
				}
				if err := insert(idx, es...); err != nil {
					t.Fatal("insert-error", "%v", err)
				}
				m.ls = append(m.ls, es...)
				t.Count("rows_inserted", len(es))
			case 3:
				// a failed update changes nothing
				e := m.draw(t.Rand, next, pool)
				next++
				bad := errors.New("bad")
				b := batch.New()
				b.Add(e.id, e.at, e.bitmap())
				f, _ := b.Build()
				for shard, views := range f {
					err := idx.Update(shard, func(tx *rbf.Tx) error {
						for name, bm := range views {
							if _, err := tx.AddRoaring(name, bm); err != nil {
								return err
							}
						}
						return bad
					})
					if !errors.Is(err, bad) {
						t.Fatal("update-error", "the error of an update is lost: %v", err)
					}
				}
				t.Count("updates_failed", 1)
			case 4:
				if err := idx.Close(); err != nil {
					t.Fatal("close-error", "%v", err)
				}
				idx = shards.New(dir, nil)
				t.Count("reopened", 1)
			case 5:
				m.rows(t, idx, t.Rand, true)
			case 6:
				m.all(t, idx)
			}
			for k := 0; k < 6; k++ {
				m.search(t, idx, t.Rand, pool)
			}
		}
		m.rows(t, idx, t.Rand, false)
		m.all(t, idx)
		if err := idx.Close(); err != nil {
			t.Fatal("close-error", "%v", err)
		}
		t.Sample(map[string]any{"rows": len(m.ls), "columns": pool})
	}
	// many goroutines write and read an index none of them has opened yet
	race := func(t *zv.T) {
		dir := filepath.Join(t.Dir, "index")
		m := &ref{}
		pool := columnPool(t.Rand)
		next := uint64(0)
		for gen := 0; gen < 2; gen++ {
			idx := shards.New(dir, nil)
			const writers = 6
			var plan [writers][]*entry
			for i := 0; i < 24; i++ {
				e := m.draw(t.Rand, next, pool)
				next++
				w := t.Rand.Intn(writers)
				plan[w] = append(plan[w], e)
			}
			// plan entries to writers; readers only look at what was there before
			before := &ref{ls: append([]*entry{}, m.ls...)}
			var wg sync.WaitGroup
			start := make(chan struct{})
			var errs [writers]error
			for w := 0; w < writers; w++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					<-start
					for _, e := range plan[w] {
						if err := insert(idx, e); err != nil {
							errs[w] = err
							return
						}
					}
				}()
			}
			for k := 0; k < 2; k++ {
				r := rand.New(rand.NewSource(t.Rand.Int63()))
				wg.Add(1)
				go func() {
					defer wg.Done()
					defer func() {
						if e := recover(); e != nil && !t.Failed() {
							t.Fail("panic", "reading while writing: %v", e)
						}
					}()
					<-start
					for i := 0; i < 10; i++ {
						before.rows(t, idx, r, true)
					}
				}()
			}
			close(start)
			wg.Wait()
			for _, err := range errs {
				if err != nil {
					t.Fatal("insert-error", "concurrent insert: %v", err)
				}
			}
			for w := range plan {
				m.ls = append(m.ls, plan[w]...)
			}
			m.rows(t, idx, t.Rand, false)
			m.all(t, idx)
			for k := 0; k < 20; k++ {
				m.search(t, idx, t.Rand, pool)
			}
			if err := idx.Close(); err != nil {
				t.Fatal("close-error", "%v", err)
			}
			t.Count("concurrent_openings", 1)
		}
	}
	return &zv.Prop{
		ID:   "C11",
		Rule: "an execution is a history of inserts, failed updates, reopenings and lookups on the on-disk index with columns in several containers and shards; a lookup counts as distinct when rows match. The oracle is a list of (row, time, columns)",
		Assume: []string{
			"rows are written as the store writes them: one transaction per shard and batch",
		},
		Families: []zv.Family{
			{Name: "history", Quick: 180 * 8, Thorough: 3000, Run: func(t *zv.T) { history(t, false) }},
			{Name: "bulk", Quick: 24, Thorough: 300, Run: func(t *zv.T) { history(t, true) }},
			{Name: "concurrent", Quick: 60 * 8, Thorough: 800, Run: race},
		},
	}
}
