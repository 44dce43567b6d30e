package main

import (
	"fmt"
	"math/rand"
	"strings"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/labels"
	"github.com/gernest/requiemdb/internal/transform"
	"github.com/gernest/requiemdb/internal/zverif/gen"
	"github.com/gernest/requiemdb/internal/zverif/kit"
	"github.com/gernest/requiemdb/internal/zverif/zv"
	"github.com/gernest/roaring/shardwidth"
	"google.golang.org/protobuf/proto"
)

// expected is the set of labels of a sample, as the dictionary sees them.
func expected(d *v1.Data, sig int) map[string]bool {
	o := map[string]bool{}
	res := v1.RESOURCE(gen.ScopeOf(sig))
	for l := range gen.LabelsOf(d) {
		o[string(labels.NewLabel().WithResource(res).WithPrefix(v1.PREFIX(l.Prop)).WithKey(l.Key).WithValue(l.Val).Encode())] = true
	}
	o[string(labels.NewLabel().WithResource(res).WithPrefix(v1.PREFIX_UNKNOWN).Encode())] = true
	return o
}

// dictionary hands out ids of keys.
type dictionary struct {
	id  map[string]uint64
	key []string
}

func (d *dictionary) translate(k []byte) uint64 {
	s := string(k)
	if n, ok := d.id[s]; ok {
		return n
	}
	n := uint64(len(d.key))
	d.id[s] = n
	d.key = append(d.key, s)
	return n
}

// extract runs the real transformation of a batch and gives the labels of every
// sample by its id.
func extract(t *zv.T, c *transform.Context, dict *dictionary, ls []*v1.Sample) map[uint64]map[string]bool {
	f, err := c.ProcessSamples(ls...)
	if err != nil {
		t.Fatal("error", "%v", err)
	}
	o := map[uint64]map[string]bool{}
	for shard, views := range f {
		for view, bm := range views {
			if len(view) != len("std_2006") {
				continue // every position is in the view of its year
			}
			for _, p := range bm.Slice() {
				id := p / shardwidth.ShardWidth
				if o[id] == nil {
					o[id] = map[string]bool{}
				}
				col := shard*shardwidth.ShardWidth + p%shardwidth.ShardWidth
				if col >= uint64(len(dict.key)) {
					t.Fatal("unknown-column", "sample %d has column %d nobody assigned", id, col)
				}
				o[id][dict.key[col]] = true
			}
		}
	}
	return o
}

func maxTime(d *v1.Data) (m uint64) {
	for _, l := range gen.Leaves(d) {
		if l.SpanMsg != nil {
			m = max(m, l.SpanMsg.EndTimeUnixNano)
			continue
		}
		m = max(m, l.Time)
	}
	return
}

func judgeLabels(t *zv.T, ls []*v1.Sample, orig []*v1.Data, got map[uint64]map[string]bool) {
	for i, s := range ls {
		t.Eval(1)
		sig := sigOf(orig[i])
		want := expected(orig[i], sig)
		have := got[s.Id]
		for k := range want {
			if !have[k] {
				t.Fatal("label-missing", "sample %d of a batch of %d lacks label %q (it has %d of %d)", i, len(ls), k, len(have), len(want))
			}
		}
		for k := range have {
			if !want[k] && !emptyLabel(k) {
				t.Fatal("label-foreign", "sample %d of a batch of %d has label %q which is not its own", i, len(ls), k)
			}
		}
		if !proto.Equal(s.Data, orig[i]) {
			t.Fatal("data-changed", "extracting labels changed the sample: %s", kit.Diff(orig[i], s.Data))
		}
		if m := gen.MinTime(orig[i]); s.MinTs != m {
			t.Fatal("min-time", "the sample begins at %d, recorded is %d", m, s.MinTs)
		}
		if m := maxTime(orig[i]); s.MaxTs != m {
			t.Fatal("max-time", "the sample ends at %d, recorded is %d", m, s.MaxTs)
		}
		if len(want) > 3 {
			t.Distinct(fmt.Sprint(want))
			t.Count("labels", len(want))
		}
	}
}

// emptyLabel tells a label of an empty text (nobody can ask for one).
func emptyLabel(k string) bool {
	return strings.Count(k, ":") == 2 && strings.HasSuffix(k, ":")
}

func sigOf(d *v1.Data) int {
	switch d.Data.(type) {
	case *v1.Data_Metrics:
		return 0
	case *v1.Data_Logs:
		return 1
	}
	return 2
}

func propC13() *zv.Prop {
	run := func(t *zv.T, wild, large bool) {
		dict := &dictionary{id: map[string]uint64{}}
		c := transform.NewContext(dict.translate)
		r := t.Rand
		rounds := 12
		if large {
			rounds = 2
		}
		for round := 0; round < rounds; round++ {
			var ls []*v1.Sample
			var orig []*v1.Data
			n := 1 + r.Intn(6)
			ids := r.Perm(n)
			base := uint64(r.Int63n(1 << 30))
			for k := 0; k < n; k++ {
				o := gen.Opt{Vocab: 1 + r.Intn(5), Wild: wild, Max: 1 + r.Intn(3), AtLeastOne: r.Intn(4) > 0,
					TimeLo: uint64(t0.UnixNano()), TimeHi: uint64(t0.UnixNano()) + 5000, ZeroTime: r.Intn(3)}
				if large {
					o = o.Large(r, 3000)
				}
				d := gen.New(r, o).Data(r.Intn(3))
				orig = append(orig, d)
				ls = append(ls, &v1.Sample{Id: base + uint64(ids[k]), Data: kit.Clone(d)})
			}
			got := extract(t, c, dict, ls)
			judgeLabels(t, ls, orig, got)
			// the same samples alone and in another order
			perm := rand.New(rand.NewSource(r.Int63())).Perm(n)
			for _, k := range perm {
				s := &v1.Sample{Id: ls[k].Id, Data: kit.Clone(orig[k])}
				one := extract(t, c, dict, []*v1.Sample{s})
				if fmt.Sprint(one[s.Id]) != fmt.Sprint(got[s.Id]) {
					t.Fatal("not-a-function", "a sample has labels %v alone and %v in a batch", one[s.Id], got[s.Id])
				}
				if len(one) != 1 {
					t.Fatal("leak", "a batch of one sample indexes %d samples", len(one))
				}
				t.Eval(1)
			}
			t.Sample(map[string]any{"labels_of_first": fmt.Sprintf("%q", keysOf(got[ls[0].Id]))})
		}
	}
	return &zv.Prop{
		ID:   "C13",
		Rule: "an execution extracts labels and times of generated batches, then of each sample alone; label sets with more than three labels are counted as distinct. The oracle recomputes labels and times from the telemetry",
		Families: []zv.Family{
			{Name: "plain", Quick: 480 * 8, Thorough: 5000, Run: func(t *zv.T) { run(t, false, false) }},
			{Name: "wild", Quick: 480 * 8, Thorough: 5000, Run: func(t *zv.T) { run(t, true, false) }},
			{Name: "large", Quick: 120, Thorough: 1500, Run: func(t *zv.T) { run(t, t.Rand.Intn(3) == 0, true) }},
		},
	}
}

func keysOf(m map[string]bool) (o []string) {
	for k := range m {
		o = append(o, k)
		if len(o) > 8 {
			break
		}
	}
	return
}
