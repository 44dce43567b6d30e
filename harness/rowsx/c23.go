package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"sort"

	"github.com/gernest/requiemdb/internal/rows"
	"github.com/gernest/requiemdb/internal/zverif/zv"
	"github.com/gernest/roaring"
	"github.com/gernest/roaring/shardwidth"
)

const width = uint64(shardwidth.ShardWidth)

type set map[uint64]bool

func (s set) sorted() []uint64 {
	o := make([]uint64, 0, len(s))
	for v := range s {
		o = append(o, v)
	}
	sort.Slice(o, func(i, j int) bool { return o[i] < o[j] })
	return o
}

func (s set) clone() set {
	o := set{}
	for v := range s {
		o[v] = true
	}
	return o
}

// columns draws columns near shard and container edges, sparse, dense and in
// runs, so that every kind of container is met.
func columns(r *rand.Rand) []uint64 {
	o := []uint64{}
	bases := []uint64{0, width, 2 * width, 5 * width, 5*width + 65536, 5*width + 3*65536, 1000 * width, 1 << 40}
	for k := r.Intn(4); k > 0; k-- {
		b := bases[r.Intn(len(bases))]
		switch r.Intn(5) {
		case 0: // next to an edge
			for d := -2; d <= 2; d++ {
				if v := b + uint64(d); v < 1<<50 && r.Intn(2) == 0 {
					o = append(o, v)
				}
			}
		case 1: // sparse in a shard
			for i := r.Intn(20); i > 0; i-- {
				o = append(o, b+uint64(r.Int63n(int64(width))))
			}
		case 2: // a run, maybe across containers
			from := b + uint64(r.Intn(70000))
			for i := uint64(0); i < uint64(1+r.Intn(300)); i++ {
				o = append(o, from+i)
			}
		case 3: // dense enough for a bitmap container
			from := b + uint64(r.Intn(3))*65536
			step := uint64(2 + r.Intn(9))
			for i := uint64(0); i < 4000+uint64(r.Intn(2500)); i++ {
				if v := i * step; v < 65536 {
					o = append(o, from+v)
				}
			}
		default:
			o = append(o, b+uint64(r.Intn(10)))
		}
	}
	r.Shuffle(len(o), func(i, j int) { o[i], o[j] = o[j], o[i] })
	return o
}

type pair struct {
	row *rows.Row
	set set
}

// check compares everything a row tells with the set.
func (p *pair) check(t *zv.T, what string) {
	t.Eval(1)
	want := p.set.sorted()
	got := p.row.Columns()
	if len(got) != len(want) {
		have := set{}
		for _, v := range got {
			have[v] = true
		}
		diff := ""
		for _, v := range got {
			if !p.set[v] && len(diff) < 200 {
				diff += fmt.Sprint(" +", v)
			}
		}
		for _, v := range want {
			if !have[v] && len(diff) < 200 {
				diff += fmt.Sprint(" -", v)
			}
		}
		t.Fatal("columns", "%s: %d columns, want %d:%s", what, len(got), len(want), diff)
	}
	for i := range got {
		if got[i] != want[i] {
			t.Fatal("columns", "%s: column %d is %d, want %d", what, i, got[i], want[i])
		}
	}
	if n := p.row.Count(); n != uint64(len(want)) {
		t.Fatal("count", "%s: count %d of %d columns", what, n, len(want))
	}
	if p.row.Any() != (len(want) > 0) || p.row.IsEmpty() != (len(want) == 0) {
		t.Fatal("emptiness", "%s: any=%v empty=%v of %d columns", what, p.row.Any(), p.row.IsEmpty(), len(want))
	}
}

// deep compares the remaining views of a row, which are slower.
func (p *pair) deep(t *zv.T, what string) {
	want := p.set.sorted()
	sc := p.row.ShardColumns()
	for i, v := range want {
		if i >= len(sc) || sc[i] != int64(v%width) {
			t.Fatal("shard-columns", "%s: shard column %d of %d wrong", what, i, len(sc))
		}
	}
	for k := 0; k < 20; k++ {
		v := uint64(t.Rand.Int63n(int64(6 * width)))
		if len(want) > 0 {
			v = want[t.Rand.Intn(len(want))] + uint64(t.Rand.Intn(3)) - 1
		}
		if p.row.Includes(v) != p.set[v] {
			t.Fatal("includes", "%s: includes(%d) is %v", what, v, !p.set[v])
		}
	}
	b, err := json.Marshal(p.row)
	if err != nil {
		t.Fatal("json", "%s: %v", what, err)
	}
	var o struct{ Columns []uint64 }
	if err := json.Unmarshal(b, &o); err != nil || fmt.Sprint(o.Columns) != fmt.Sprint(want) {
		t.Fatal("json", "%s: json lists %d columns, want %d (%v)", what, len(o.Columns), len(want), err)
	}
	tb, err := p.row.ToTable()
	if err != nil || len(tb.Rows) != len(want) {
		t.Fatal("table", "%s: table of %d rows, want %d (%v)", what, len(tb.Rows), len(want), err)
	}
	for i, r := range tb.Rows {
		if len(r) != 1 || r[0].Int() != want[i] {
			t.Fatal("table", "%s: table row %d wrong", what, i)
		}
	}
	if len(want) > 0 && (len(tb.Headers) != 1 || tb.Headers[0].Name != "_id" || tb.Headers[0].DataType != rows.Int64) {
		t.Fatal("table", "%s: headers %v", what, tb.Headers)
	}
}

func build(t *zv.T) *pair {
	cols := columns(t.Rand)
	p := &pair{set: set{}}
	for _, c := range cols {
		p.set[c] = true
	}
	switch t.Rand.Intn(4) {
	case 0:
		p.row = rows.NewRow(cols...)
	case 1:
		p.row = rows.NewRowFromBitmap(roaring.NewBitmap(cols...))
		t.Count("rows_from_bitmaps", 1)
	case 2:
		p.row = &rows.Row{}
		seen := set{}
		for _, c := range cols {
			if p.row.SetBit(c) == seen[c] {
				t.Fatal("set-bit", "setting column %d reported changed=%v", c, seen[c])
			}
			seen[c] = true
		}
	default:
		if len(cols) == 0 {
			p.row = rows.NewRow()
			break
		}
		p.row = rows.NewRowFromRoaring(rows.NewRow(cols...).Roaring())
		t.Count("rows_from_serialized", 1)
	}
	return p
}

func propC23() *zv.Prop {
	run := func(t *zv.T) {
		r := t.Rand
		pool := []*pair{}
		for i := 0; i < 3+r.Intn(3); i++ {
			p := build(t)
			p.check(t, "built row")
			pool = append(pool, p)
		}
		hist := ""
		for step := 0; step < 16; step++ {
			i := r.Intn(len(pool))
			a := pool[i]
			var others []*pair
			var rs []*rows.Row
			idx := 0
			for k := 1 + r.Intn(3); k > 0; k-- {
				j := r.Intn(len(pool))
				if len(others) == 0 {
					idx = j
				}
				o := pool[j]
				others, rs = append(others, o), append(rs, o.row)
			}
			b := others[0]
			res := &pair{set: set{}}
			op := ""
			switch r.Intn(10) {
			case 9:
				// segments may lose columns one by one
				op = "clear"
				all := r.Intn(3) == 0
				for k := range a.row.Segments {
					s := &a.row.Segments[k]
					cols := s.Columns()
					if len(cols) > 300 {
						cols = cols[:1+r.Intn(300)]
					}
					for _, c := range append(cols, s.Shard()*width+uint64(r.Intn(70000))) {
						if !all && r.Intn(2) == 0 {
							continue
						}
						if s.ClearBit(c) != a.set[c] {
							t.Fatal("clear-bit", "clearing column %d reported changed=%v", c, !a.set[c])
						}
						delete(a.set, c)
					}
				}
				if r.Intn(4) == 0 {
					a.row.InvalidateCount()
				}
			case 0:
				op = "intersect"
				res.row = a.row.Intersect(b.row)
				for v := range a.set {
					if b.set[v] {
						res.set[v] = true
					}
				}
			case 1:
				op = fmt.Sprint("union", len(rs))
				res.row = a.row.Union(rs...)
				res.set = a.set.clone()
				for _, o := range others {
					for v := range o.set {
						res.set[v] = true
					}
				}
			case 2:
				op = fmt.Sprint("difference", len(rs))
				res.row = a.row.Difference(rs...)
				res.set = a.set.clone()
				for _, o := range others {
					for v := range o.set {
						delete(res.set, v)
					}
				}
			case 3:
				op = "xor"
				res.row = a.row.Xor(b.row)
				res.set = a.set.clone()
				for v := range b.set {
					if res.set[v] {
						delete(res.set, v)
					} else {
						res.set[v] = true
					}
				}
			case 4:
				op = "clone"
				res.row, res.set = a.row.Clone(), a.set.clone()
			case 5:
				op = "round-trip"
				if len(a.set) == 0 {
					continue
				}
				res.row, res.set = rows.NewRowFromRoaring(a.row.Roaring()), a.set.clone()
			case 6:
				op = "merge"
				a.row.Merge(b.row)
				for v := range b.set {
					a.set[v] = true
				}
			case 7:
				op = "set"
				for _, c := range columns(r) {
					if len(a.set) > 20000 {
						break
					}
					if a.row.SetBit(c) == a.set[c] {
						t.Fatal("set-bit", "setting column %d reported changed=%v", c, a.set[c])
					}
					a.set[c] = true
				}
			default:
				op = "freeze"
				a.row.Freeze()
			}
			hist += fmt.Sprintf(" %s(%d,%d)", op, i, idx)
			t.Count("ops_"+op, 1)
			if res.row != nil {
				res.check(t, "result of"+hist)
				if r.Intn(4) == 0 {
					res.deep(t, "result of"+hist)
				}
				if len(res.set) > 0 {
					t.Distinct(op, len(res.set), len(a.set), len(b.set))
				}
				if r.Intn(2) == 0 && len(res.set) < 20000 {
					k := r.Intn(len(pool))
					hist += fmt.Sprintf("->%d", k)
					pool[k] = res
				}
			}
			for k, p := range pool {
				p.check(t, fmt.Sprintf("row %d after%s", k, hist))
			}
		}
		for k, p := range pool {
			p.deep(t, fmt.Sprintf("row %d after%s", k, hist))
		}
		t.Sample(map[string]any{"operations": hist})
	}
	return &zv.Prop{
		ID:     "C23",
		Rule:   "an execution builds 3-5 rows (bit by bit, from bitmaps, from their serialized form) over several shards and applies 16 random operations (set, clear, merge, intersect, union, difference, xor, clone, freeze, serialize) among them and their results; after each one the result and every row must hold exactly the columns of a reference set, and columns, counts, membership, table and JSON views must agree. Operations count as distinct by kind and operand sizes",
		Assume: []string{"columns below 2^50", "Shift is documented as unsupported and not used"},
		Families: []zv.Family{
			{Name: "algebra", Quick: 1600, Thorough: 12000, Run: run},
		},
	}
}
