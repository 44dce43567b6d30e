package main

import (
	"fmt"
	"sort"

	"github.com/gernest/requiemdb/internal/rows"
	"github.com/gernest/requiemdb/internal/zverif/zv"
)

type values map[uint64]uint64

func (v values) cols() []uint64 {
	o := make([]uint64, 0, len(v))
	for c := range v {
		o = append(o, c)
	}
	sort.Slice(o, func(i, j int) bool { return o[i] < o[j] })
	return o
}

func (v values) set() set {
	s := set{}
	for c := range v {
		s[c] = true
	}
	return s
}

func drawValues(t *zv.T) values {
	r := t.Rand
	v := values{}
	most := []int{20, 200, 200, 600, 5000}[r.Intn(5)]
	bitsN := []int{1, 3, 8, 20, 41, 62}[r.Intn(6)]
	for _, c := range columns(r) {
		if len(v) > most {
			break
		}
		x := uint64(r.Int63n(1 << bitsN))
		switch r.Intn(8) {
		case 0:
			x = 0
		case 1:
			x = 1 << r.Intn(bitsN)
		case 2:
			x = 1<<bitsN - 1
		}
		v[c] = x
	}
	return v
}

// pivot reads everything back and checks the order values are reported in.
func pivot(t *zv.T, what string, b rows.BSIData, want values, filter set, limit, offset *uint64) {
	pivotRow(t, what, b, want, rows.NewRow(filter.sorted()...), filter, limit, offset)
}

func pivotRow(t *zv.T, what string, b rows.BSIData, want values, f *rows.Row, filter set, limit, offset *uint64) {
	type hit struct{ val, col uint64 }
	var exp []hit
	for c := range filter {
		exp = append(exp, hit{want[c], c})
	}
	sort.Slice(exp, func(i, j int) bool {
		if exp[i].val != exp[j].val {
			return exp[i].val > exp[j].val
		}
		return exp[i].col < exp[j].col
	})
	if offset != nil {
		exp = exp[min(uint64(len(exp)), *offset):]
	}
	if limit != nil {
		exp = exp[:min(uint64(len(exp)), *limit)]
	}
	desc := fmt.Sprint(what, " filter of ", len(filter))
	if limit != nil {
		desc += fmt.Sprint(" limit ", *limit)
	}
	if offset != nil {
		desc += fmt.Sprint(" offset ", *offset)
	}
	var got []hit
	last, first := uint64(0), true
	b.PivotDescending(f, 0, limit, offset, func(v uint64, cols ...uint64) {
		if !first && v >= last {
			t.Fatal("order", "%s: value %d after %d", desc, v, last)
		}
		last, first = v, false
		if len(cols) == 0 {
			t.Fatal("empty-value", "%s: value %d is reported without a column", desc, v)
		}
		for _, c := range cols {
			got = append(got, hit{v, c})
		}
	})
	t.Eval(1)
	if len(got) != len(exp) {
		t.Fatal("pivot", "%s: %d columns, want %d", desc, len(got), len(exp))
	}
	for i := range got {
		if got[i] != exp[i] {
			t.Fatal("pivot", "%s: entry %d is %v, want %v", desc, i, got[i], exp[i])
		}
	}
	// every row of a number is the set of columns with that bit
	for k, row := range b {
		bit := set{}
		for c, v := range want {
			if v>>k&1 == 1 {
				bit[c] = true
			}
		}
		p := pair{row, bit}
		p.check(t, fmt.Sprintf("%s: row %d of %d", what, k, len(b)))
	}
	if len(exp) > 0 {
		t.Distinct(desc, len(exp), exp[0], exp[len(exp)-1])
	}
}

func propC24() *zv.Prop {
	run := func(t *zv.T) {
		r := t.Rand
		var bl rows.BsiBuilder
		var rb rows.RowBuilder
		type num struct {
			b rows.BSIData
			v values
		}
		var ns []num
		for i := 0; i < 3; i++ {
			v := drawValues(t)
			for _, c := range v.cols() {
				bl.Insert(c, v[c])
			}
			ns = append(ns, num{bl.Build(), v})
			// the same builder is used for rows again and again
			p := &pair{set: v.set()}
			for _, c := range p.set.sorted() {
				rb.Add(c)
			}
			p.row = rb.Build()
			p.check(t, fmt.Sprintf("row builder, use %d", i))
			t.Count("rows_built", 1)
		}
		read := func(n num, what string) {
			all := n.v.set()
			pivot(t, what, n.b, n.v, all, nil, nil)
			f := set{}
			for _, o := range ns {
				for c := range o.v {
					if r.Intn(3) == 0 {
						f[c] = true
					}
				}
			}
			var limit, offset *uint64
			if r.Intn(2) == 0 {
				x := uint64(r.Intn(len(f) + 3))
				limit = &x
			}
			if r.Intn(2) == 0 {
				x := uint64(r.Intn(len(f) + 3))
				offset = &x
			}
			pivot(t, what, n.b, n.v, f, limit, offset)
			// a row of a number selects as well as any other
			if o := ns[r.Intn(len(ns))]; len(o.b) > 0 {
				k := r.Intn(len(o.b))
				f := set{}
				for c, v := range o.v {
					if v>>k&1 == 1 {
						f[c] = true
					}
				}
				pivotRow(t, fmt.Sprintf("%s by row %d of a number", what, k), n.b, n.v, o.b[k], f, limit, offset)
			}
		}
		for i, n := range ns {
			read(n, fmt.Sprint("number ", i))
		}
		hist := ""
		for step := 0; step < 4; step++ {
			i, j := r.Intn(len(ns)), r.Intn(len(ns))
			x, y := ns[i], ns[j]
			sum := values{}
			for c, v := range x.v {
				sum[c] += v
			}
			for c, v := range y.v {
				sum[c] += v
			}
			big := false
			for c := range sum {
				big = big || sum[c] >= 1<<63
			}
			if big {
				continue
			}
			hist += fmt.Sprintf(" %d+%d", i, j)
			s := num{rows.AddBSI(x.b, y.b), sum}
			read(s, "sum"+hist)
			t.Count("sums", 1)
			if r.Intn(2) == 0 && len(s.b) > 0 {
				// what happens to the sum is not the operands' business
				k := r.Intn(len(s.b))
				s.b[k].SetBit(7)
				s.v[7] |= 1 << k
				read(s, "changed sum"+hist)
			}
			for k, n := range ns {
				read(n, fmt.Sprintf("number %d after%s", k, hist))
			}
			ns[r.Intn(len(ns))] = s
		}
		t.Sample(map[string]any{"sums": hist, "sizes": []int{len(ns[0].v), len(ns[1].v), len(ns[2].v)}})
	}
	return &zv.Prop{
		ID:     "C24",
		Rule:   "an execution builds three sets of numbers (values of 1 to 62 bits on columns across shards and containers) with one reused builder, reads them back in descending order with random filters, limits and offsets, adds them to each other four times (also after changing a sum) and reads operands and sums again; reference: maps from column to value. Reads count as distinct by parameters and result",
		Assume: []string{"columns are inserted in ascending order without duplicates, sums stay below 2^63, as documented"},
		Families: []zv.Family{
			{Name: "numbers", Quick: 160, Thorough: 6000, Run: run},
		},
	}
}
